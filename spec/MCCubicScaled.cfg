SPECIFICATION Spec
CONSTANTS R = 1
          Q = 2
          Mode = "ok"
INVARIANTS Correct Repeated Factors
CHECK_DEADLOCK FALSE
