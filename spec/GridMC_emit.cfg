SPECIFICATION Spec
CONSTANTS MaxN = 5
          MaxV = 2
          Emit = TRUE
          Deep = FALSE
INVARIANTS Adds Enumerates Increasing MaxRecorded Apart
