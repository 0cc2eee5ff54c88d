SPECIFICATION Spec
CONSTANTS NObj = 3
 MaxOps = 3
 Forget = TRUE
 Emit = TRUE
INVARIANTS Current Agree
PROPERTY Quiet
