SPECIFICATION Spec
CONSTANTS Depth = 16
          Mode = "server"
INVARIANT Emit_
CHECK_DEADLOCK FALSE
