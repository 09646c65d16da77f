SPECIFICATION Spec
CONSTANTS R = 5
          Q = 1
          Mode = "ok"
INVARIANTS Correct Repeated Factors
CHECK_DEADLOCK FALSE
