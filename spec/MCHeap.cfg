SPECIFICATION Spec
CONSTANTS Prios = {1, 2, 3}
          MaxIns = 6
          Descend = "greater"
INVARIANTS HeapOrdered NoLoss
PROPERTY Refines
CHECK_DEADLOCK FALSE
