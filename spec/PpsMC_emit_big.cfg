SPECIFICATION Spec
CONSTANTS MaxW = 2
 NPop = 5
 MaxOps = 4
 Emit = TRUE
INVARIANTS RightPreparation TablesCurrent
