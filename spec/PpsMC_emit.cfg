SPECIFICATION Spec
CONSTANTS MaxW = 2
 NPop = 5
 MaxOps = 3
 Emit = TRUE
INVARIANTS RightPreparation TablesCurrent
