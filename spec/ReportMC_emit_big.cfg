SPECIFICATION Spec
CONSTANTS MaxOps = 4
 Copy = TRUE
 Emit = TRUE
INVARIANTS Frozen Complete
PROPERTY Quiet
