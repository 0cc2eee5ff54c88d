SPECIFICATION Spec
VIEW View
CONSTANTS
  Ops <- OpsStatus
  Names <- Names2
  MaxLen = 3
  Emit = TRUE
INVARIANT InvDesign
PROPERTIES RejectAtomic Restart PlaceKept RestoreExact
