SPECIFICATION TSpec
CONSTANTS InCap <- TInCap
          OutCap <- TOutCap
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
