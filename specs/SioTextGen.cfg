SPECIFICATION Spec
CONSTANTS Depth = 6
          Mode = "dec"
INVARIANT Emit_
CHECK_DEADLOCK FALSE
