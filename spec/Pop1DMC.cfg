SPECIFICATION Spec
CONSTANTS MaxN = 3
          MaxV = 2
          MaxW = 2
          Emit = FALSE
INVARIANTS InOrder Complement AtOrAbove Descends Ascends Curve EmitP
