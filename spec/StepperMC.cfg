SPECIFICATION Spec
CONSTANTS Gens = 3
          MaxN = 3
          Extra = 0
          Emit = FALSE
INVARIANTS Own Complete
