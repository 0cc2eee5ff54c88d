SPECIFICATION Spec
CONSTANTS NObj = 2
 MaxOps = 3
 Emit = FALSE
INVARIANTS Same OriginalsKept
PROPERTY OthersKept
