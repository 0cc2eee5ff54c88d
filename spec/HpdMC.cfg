SPECIFICATION Spec
CONSTANTS MaxN = 5
          MaxV = 3
          Emit = FALSE
INVARIANTS Ends Monotone Nested Alternate Parity Strict
