SPECIFICATION Spec
CONSTANTS Depth = 16
          Parser = "default"
          Mode = "virtual"
INVARIANT Emit_
CHECK_DEADLOCK FALSE
