SPECIFICATION Spec
CONSTANTS M = 3
          H = 3
          Qs = 2
INVARIANTS Diag Mixed Rich RichMixed
