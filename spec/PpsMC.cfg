SPECIFICATION Spec
CONSTANTS MaxW = 3
 NPop = 5
 MaxOps = 4
 Emit = FALSE
INVARIANTS RightPreparation TablesCurrent
