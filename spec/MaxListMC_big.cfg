SPECIFICATION Spec
CONSTANTS MaxOps = 7
 Vals = {0,1,2}
 Emit = FALSE
INVARIANT Right
