SPECIFICATION Spec
CONSTANTS MaxOps = 5
 Vals = {0,1,2}
 Emit = FALSE
INVARIANT Right
