SPECIFICATION Spec
CONSTANTS Configs = 3
 Pars = 3
 MaxOps = 2
 Emit = FALSE
INVARIANTS Consistent LeastSquares
PROPERTY Memo
