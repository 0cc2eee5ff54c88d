SPECIFICATION Spec
CONSTANTS Nx = 2
          Ny = 2
          MaxZ = 3
          MaxLevels = 3
          NCol = 2
          Emit = TRUE
INVARIANTS Increasing OwnColour Mirror Through Separates Shifted EmitC
