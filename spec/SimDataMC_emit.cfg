SPECIFICATION Spec
CONSTANTS NObj = 2
 MaxOps = 2
 Emit = TRUE
INVARIANTS Same OriginalsKept
PROPERTY OthersKept
