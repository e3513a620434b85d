SPECIFICATION Spec
CONSTANTS Depth = 12
          Mode = "any"
INVARIANT Emit_
CHECK_DEADLOCK FALSE
