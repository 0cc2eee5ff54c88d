SPECIFICATION Spec
CONSTANTS MaxOps = 4
 Vals = {0,1,2}
 Emit = TRUE
INVARIANT Right
