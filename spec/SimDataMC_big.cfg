SPECIFICATION Spec
CONSTANTS NObj = 2
 MaxOps = 4
 Emit = FALSE
INVARIANTS Same OriginalsKept
PROPERTY OthersKept
