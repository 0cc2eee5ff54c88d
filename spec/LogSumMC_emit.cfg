SPECIFICATION Spec
CONSTANTS MaxLen = 4
          MaxE = 5
          Cut = 4
          Emit = TRUE
INVARIANTS Exact Count Refuses EmitC
