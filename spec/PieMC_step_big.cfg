SPECIFICATION Spec
VIEW View
CONSTANTS
  Ops <- OpsStep
  Names <- Names3
  MaxLen = 0
  Emit = FALSE
INVARIANT InvDesign
PROPERTIES RejectAtomic Restart PlaceKept RestoreExact
