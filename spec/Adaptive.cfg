SPECIFICATION Spec
CONSTANTS
 Dim = 2
 Side = 4
 MaxErr = 2
 Budgets = {1, 2, 5, 7, 9}
INVARIANTS Tiling Budget Honest
CHECK_DEADLOCK FALSE
