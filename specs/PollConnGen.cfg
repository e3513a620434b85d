SPECIFICATION Spec
CONSTANTS InCap = 8
          OutCap = 8
          Depth = 12
INVARIANT Emit
CHECK_DEADLOCK FALSE
