SPECIFICATION MSpec
CONSTANTS Sessions = {1}
          Cands = {}
          MaxMsg = 3
          Senders = {1, 2}
          WithUpgrade = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
