SPECIFICATION Spec
CONSTANTS MaxV = 3
 MaxN = 5
 Emit = TRUE
INVARIANTS SameIntervals Normalised Positive
