SPECIFICATION Spec
CONSTANTS Configs = 1
 Pars = 2
 MaxOps = 2
 Emit = TRUE
INVARIANTS Consistent LeastSquares
PROPERTY Memo
