SPECIFICATION Spec
VIEW View
CONSTANTS
  Ops <- OpsStep
  Names <- Names2
  MaxLen = 6
  Emit = TRUE
INVARIANT InvDesign
PROPERTIES RejectAtomic Restart PlaceKept RestoreExact
