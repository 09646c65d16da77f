SPECIFICATION Spec
CONSTANTS R = 3
          Q = 1
          Mode = "ok"
INVARIANTS Correct Repeated Factors
CHECK_DEADLOCK FALSE
