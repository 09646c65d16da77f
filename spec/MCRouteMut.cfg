SPECIFICATION Spec
CONSTANTS N = 4
          Mode = "gap"
INVARIANTS Chain Safe Whole Rest
PROPERTY Ends
CHECK_DEADLOCK FALSE
