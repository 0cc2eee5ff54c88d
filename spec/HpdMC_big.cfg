SPECIFICATION Spec
CONSTANTS MaxN = 6
          MaxV = 4
          Emit = FALSE
INVARIANTS Ends Monotone Nested Alternate Parity Strict
