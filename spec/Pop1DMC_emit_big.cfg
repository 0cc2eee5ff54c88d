SPECIFICATION Spec
CONSTANTS MaxN = 3
          MaxV = 2
          MaxW = 1
          Emit = TRUE
INVARIANTS InOrder Complement AtOrAbove Descends Ascends Curve EmitP
