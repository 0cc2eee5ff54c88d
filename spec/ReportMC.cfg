SPECIFICATION Spec
CONSTANTS MaxOps = 4
 Copy = TRUE
 Emit = FALSE
INVARIANTS Frozen Complete
PROPERTY Quiet
