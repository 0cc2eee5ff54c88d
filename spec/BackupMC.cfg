SPECIFICATION Spec
CONSTANTS MaxOps = 2
 Emit = FALSE
INVARIANTS SafeAlways
PROPERTY DoneRight
