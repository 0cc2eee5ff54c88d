SPECIFICATION Spec
CONSTANTS N = 5
          V = 3
          MaxIt = 6
          Emit = FALSE
INVARIANTS Ordered Middle IsBracket NotWorse Best Within Track Contains EmitC
PROPERTIES Shrinks
