SPECIFICATION Spec
CONSTANTS MaxN = 2
          MaxV = 2
          MaxW = 2
          Emit = TRUE
INVARIANTS InOrder Complement AtOrAbove Descends Ascends Curve EmitP
