SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
