SPECIFICATION Spec
CONSTANTS Depth = 20
          Profile = "upgrade"
          NS = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
