SPECIFICATION Spec
CONSTANTS Vals = {1, 2}
          MaxKeys = 4
          MaxVals = 5
INVARIANTS ViewsAgree Inductive
PROPERTY Stable
CHECK_DEADLOCK FALSE
