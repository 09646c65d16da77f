SPECIFICATION Spec
CONSTANTS N = 4
          Mode = "tangent"
INVARIANTS Chain Safe Whole Rest
PROPERTY Ends
CHECK_DEADLOCK FALSE
