SPECIFICATION Spec
CONSTANTS R = 1
          Q = 1
          Mode = "low"
INVARIANTS Correct Repeated Factors
CHECK_DEADLOCK FALSE
