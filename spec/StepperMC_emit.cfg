SPECIFICATION Spec
CONSTANTS Gens = 2
          MaxN = 4
          Extra = 1
          Emit = TRUE
INVARIANTS Own Complete EmitC
