SPECIFICATION Spec
CONSTANTS Depth = 12
          Profile = "dial"
INVARIANT Emit_
CHECK_DEADLOCK FALSE
