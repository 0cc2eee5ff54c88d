SPECIFICATION Spec
VIEW View
CONSTANTS
  Ops <- OpsSnap
  Names <- Names2
  MaxLen = 4
  Emit = TRUE
INVARIANT InvDesign
PROPERTIES RejectAtomic Restart PlaceKept RestoreExact
