SPECIFICATION Spec
CONSTANTS MaxLen = 6
          MaxE = 6
          Cut = 4
          Emit = FALSE
INVARIANTS Exact Count Refuses EmitC
