SPECIFICATION Spec
CONSTANTS N = 5
          Mode = "ok"
INVARIANTS Chain Safe Whole Rest
PROPERTY Ends
CHECK_DEADLOCK FALSE
