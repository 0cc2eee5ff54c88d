SPECIFICATION Spec
CONSTANTS N = 4
          V = 3
          MaxIt = 4
          Emit = FALSE
INVARIANTS Ordered Middle IsBracket NotWorse Best Within Track Contains EmitC
PROPERTIES Shrinks
