SPECIFICATION Spec
CONSTANTS Width = 6
 BaseN = {3, 4, 7}
 Ends = {0, 2, 3, 4, 7, 8, 11, 13, 14}
 Pts = {2, 4, 9}
 MaxOps = 3
 Emit = FALSE
INVARIANT Good
