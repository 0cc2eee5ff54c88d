SPECIFICATION Spec
CONSTANTS NObj = 2
 MaxOps = 4
 Forget = TRUE
 Emit = FALSE
INVARIANTS Current Agree
PROPERTY Quiet
