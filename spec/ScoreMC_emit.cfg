SPECIFICATION Spec
CONSTANTS NObj = 2
 MaxOps = 3
 Forget = TRUE
 Emit = TRUE
INVARIANTS Current Agree
PROPERTY Quiet
