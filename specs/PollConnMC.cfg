SPECIFICATION Spec
CONSTANTS InCap = 1
          OutCap = 1
          MaxOps = 4
          MaxTime = 2
INVARIANTS Conserved NoSpurious Bounded
PROPERTIES Released PauseReleases
CHECK_DEADLOCK FALSE
