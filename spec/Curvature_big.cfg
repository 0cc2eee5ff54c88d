SPECIFICATION Spec
CONSTANTS M = 5
          H = 5
          Qs = 4
INVARIANTS Diag Mixed Rich RichMixed
