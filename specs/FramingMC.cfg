SPECIFICATION Spec
CONSTANTS MaxPackets = 2
          Damage = FALSE
INVARIANTS RoundTrip Whole_ Total Sane Script Literal
CHECK_DEADLOCK FALSE
