SPECIFICATION Spec
CONSTANTS MaxOps = 5
 Copy = TRUE
 Emit = FALSE
INVARIANTS Frozen Complete
PROPERTY Quiet
