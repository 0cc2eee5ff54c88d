SPECIFICATION Spec
CONSTANTS MaxN = 6
          MaxV = 3
          Emit = FALSE
          Deep = TRUE
INVARIANTS Adds Enumerates Increasing MaxRecorded Apart
