SPECIFICATION Spec
CONSTANTS MaxV = 4
 MaxN = 6
 Emit = FALSE
INVARIANTS SameIntervals Normalised Positive
