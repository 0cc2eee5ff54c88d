SPECIFICATION Spec
CONSTANTS
 Dim = 2
 Side = 4
 MaxErr = 3
 Budgets = {4, 7, 9}
INVARIANTS Tiling Budget Honest
CHECK_DEADLOCK FALSE
