SPECIFICATION Spec
CONSTANTS NS = 3
          NC = 2
          Cap = 1
          Attempts = 2
          WithClose = FALSE
          Defect = "none"
INVARIANTS ClientPrefix HandlerPrefix OnceAnnounced EndsOnlyIfClosed
PROPERTIES AnnouncedInOrder AllArrives SwitchCompletes CloseDelivers CloseEnds
CHECK_DEADLOCK FALSE
