SPECIFICATION Spec
CONSTANTS Nx = 3
          Ny = 2
          MaxZ = 2
          MaxLevels = 2
          NCol = 2
          Emit = FALSE
INVARIANTS Increasing OwnColour Mirror Through Separates Shifted EmitC
