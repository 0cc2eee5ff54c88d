SPECIFICATION Spec
VIEW View
CONSTANTS
  Ops <- OpsStatus
  Names <- Names2
  MaxLen = 0
  Emit = FALSE
INVARIANT InvDesign
PROPERTIES RejectAtomic Restart PlaceKept RestoreExact
