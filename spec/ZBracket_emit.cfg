SPECIFICATION Spec
CONSTANTS MaxTries = 3
          MaxV = 2
          Emit = TRUE
INVARIANTS Sound Outward EmitC
