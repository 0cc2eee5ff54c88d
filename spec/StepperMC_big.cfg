SPECIFICATION Spec
CONSTANTS Gens = 3
          MaxN = 3
          Extra = 1
          Emit = FALSE
INVARIANTS Own Complete
