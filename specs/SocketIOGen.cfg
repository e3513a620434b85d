SPECIFICATION Spec
CONSTANTS Depth = 20
          Profile = "events"
          NS = 1
          Role = "server"
          Par = "default"
INVARIANT Emit_
CHECK_DEADLOCK FALSE
