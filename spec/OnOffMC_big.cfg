SPECIFICATION Spec
CONSTANTS MaxN = 4
          MaxP = 4
          Cuts <- CutsT
          Stts <- SttsT
INVARIANTS Recursion ModeIsMax Positive Truncation Exact TermRatio
