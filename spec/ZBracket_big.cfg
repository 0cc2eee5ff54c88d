SPECIFICATION Spec
CONSTANTS MaxTries = 6
          MaxV = 2
          Emit = FALSE
INVARIANTS Sound Outward EmitC
