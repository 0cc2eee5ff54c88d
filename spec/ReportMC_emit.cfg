SPECIFICATION Spec
CONSTANTS MaxOps = 3
 Copy = TRUE
 Emit = TRUE
INVARIANTS Frozen Complete
PROPERTY Quiet
