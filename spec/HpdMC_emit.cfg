SPECIFICATION Spec
CONSTANTS MaxN = 5
          MaxV = 3
          Emit = TRUE
INVARIANTS Ends Monotone Nested Alternate Parity Strict
