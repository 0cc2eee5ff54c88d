SPECIFICATION Spec
CONSTANTS MaxTries = 4
          MaxV = 2
          Emit = FALSE
INVARIANTS Sound Outward EmitC
