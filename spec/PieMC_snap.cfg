SPECIFICATION Spec
VIEW View
CONSTANTS
  Ops <- OpsSnap
  Names <- Names2
  MaxLen = 0
  Emit = FALSE
INVARIANT InvDesign
PROPERTIES RejectAtomic Restart PlaceKept RestoreExact
