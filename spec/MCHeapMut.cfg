SPECIFICATION Spec
CONSTANTS Prios = {1, 2, 3}
          MaxIns = 6
          Descend = "left"
INVARIANTS HeapOrdered NoLoss
PROPERTY Refines
CHECK_DEADLOCK FALSE
