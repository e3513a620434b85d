SPECIFICATION Spec
CONSTANTS Sessions = {1, 2}
          Names = {"a", "b"}
          Values = {"", "x", "y"}
          MaxOps = 3
          Defect = "none"
INVARIANT Agrees
CHECK_DEADLOCK FALSE
