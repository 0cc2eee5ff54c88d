SPECIFICATION Spec
CONSTANTS MaxOps = 4
 Emit = FALSE
INVARIANTS SafeAlways
PROPERTY DoneRight
