SPECIFICATION Spec
CONSTANTS Depth = 6
          Mode = "post"
INVARIANT Emit_
CHECK_DEADLOCK FALSE
