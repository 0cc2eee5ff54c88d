INIT Init
NEXT Stop
CONSTANTS N = 3
          V = 3
          MaxIt = 1
          Emit = TRUE
INVARIANTS EmitC
