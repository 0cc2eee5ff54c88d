SPECIFICATION Spec
CONSTANTS MaxW = 4
 NPop = 6
 MaxOps = 5
 Emit = FALSE
INVARIANTS RightPreparation TablesCurrent
