SPECIFICATION Spec
CONSTANTS MaxN = 4
          MaxP = 2
          Cuts <- CutsQ
          Stts <- SttsQ
INVARIANTS Recursion ModeIsMax Positive Truncation Exact TermRatio
