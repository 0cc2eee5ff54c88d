SPECIFICATION Spec
CONSTANTS Dim = 2
          MaxIter = 2
          MaxGrow = 2
          Inplace = FALSE
          Emit = FALSE
INVARIANTS Untouched OneCoordinate ResultComplete NeverBeyondMax Raised Bounded EmitC
