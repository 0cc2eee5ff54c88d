SPECIFICATION Spec
CONSTANTS NObj = 2
 MaxOps = 3
 Emit = TRUE
INVARIANTS Same OriginalsKept
PROPERTY OthersKept
