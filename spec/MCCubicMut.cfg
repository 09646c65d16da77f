SPECIFICATION Spec
CONSTANTS R = 1
          Q = 1
          Mode = "sign"
INVARIANTS Correct Repeated Factors
CHECK_DEADLOCK FALSE
