SPECIFICATION MSpec
CONSTANTS Sessions = {1}
          Cands = {1, 2}
          MaxMsg = 0
          Senders = {1}
          WithUpgrade = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
