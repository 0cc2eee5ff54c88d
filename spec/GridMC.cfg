SPECIFICATION Spec
CONSTANTS MaxN = 5
          MaxV = 2
          Emit = FALSE
          Deep = TRUE
INVARIANTS Adds Enumerates Increasing MaxRecorded Apart
