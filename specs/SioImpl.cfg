SPECIFICATION Spec
CONSTANTS NG = 2
          NE = 1
          NA = 2
          NConn = 0
          Defect = "none"
INVARIANTS Contiguous Distinct Once Answered Ran Alternate Final
CHECK_DEADLOCK FALSE
