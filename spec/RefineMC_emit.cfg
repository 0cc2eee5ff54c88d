SPECIFICATION Spec
CONSTANTS Width = 6
 BaseN = {3, 4}
 Ends = {0, 2, 3, 4, 5, 7, 8, 11, 14, 16}
 Pts = {2, 4, 13}
 MaxOps = 2
 Emit = TRUE
INVARIANT Good
