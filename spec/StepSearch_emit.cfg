SPECIFICATION Spec
CONSTANTS Dim = 2
          MaxIter = 1
          MaxGrow = 1
          Inplace = FALSE
          Emit = TRUE
INVARIANTS Untouched OneCoordinate ResultComplete NeverBeyondMax Raised Bounded EmitC
