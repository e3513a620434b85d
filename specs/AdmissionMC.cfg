SPECIFICATION Spec
CONSTANTS NReq = 1
          Defect = "none"
INVARIANT Agrees
PROPERTY Answered
CHECK_DEADLOCK FALSE
