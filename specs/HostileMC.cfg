SPECIFICATION Spec
CONSTANTS Defect = "none"
          MaxFrames = 4
INVARIANTS NoHarm Served Delivered
CHECK_DEADLOCK FALSE
