SPECIFICATION MSpec
CONSTANTS Sessions = {1, 2}
          Cands = {}
          MaxMsg = 2
          Senders = {1}
          WithUpgrade = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
