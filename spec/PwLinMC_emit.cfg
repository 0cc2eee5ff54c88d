SPECIFICATION Spec
CONSTANTS MaxV = 2
 MaxN = 4
 Emit = TRUE
INVARIANTS SameIntervals Normalised Positive
