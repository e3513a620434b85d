SPECIFICATION Spec
CONSTANTS MaxArgs = 1
          Damage = FALSE
INVARIANTS RoundTrip OnlyWhole Total Sane
CHECK_DEADLOCK FALSE
