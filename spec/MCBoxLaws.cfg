SPECIFICATION Spec
CONSTANT K = 2
INVARIANTS Overlaps Clips Joins Laws
CHECK_DEADLOCK FALSE
