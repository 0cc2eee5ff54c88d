SPECIFICATION Spec
CONSTANTS MaxV = 3
 MaxN = 5
 Emit = FALSE
INVARIANTS SameIntervals Normalised Positive
