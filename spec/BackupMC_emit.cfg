SPECIFICATION Spec
CONSTANTS MaxOps = 2
 Emit = TRUE
INVARIANTS SafeAlways
PROPERTY DoneRight
