SPECIFICATION Spec
CONSTANTS MaxArgs = 2
          Damage = FALSE
INVARIANTS RoundTrip Unfinished Total Sane
CHECK_DEADLOCK FALSE
