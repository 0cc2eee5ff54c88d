SPECIFICATION Spec
CONSTANTS Configs = 1
 Pars = 2
 MaxOps = 3
 Emit = TRUE
INVARIANTS Consistent LeastSquares
PROPERTY Memo
