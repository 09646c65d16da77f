SPECIFICATION Spec
CONSTANTS N = 6
          Mode = "ok"
INVARIANTS Chain Safe Whole Rest
PROPERTY Ends
CHECK_DEADLOCK FALSE
