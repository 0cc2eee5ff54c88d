SPECIFICATION Spec
CONSTANTS Configs = 2
 Pars = 3
 MaxOps = 2
 Emit = FALSE
INVARIANTS Consistent LeastSquares
PROPERTY Memo
