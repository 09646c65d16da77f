SPECIFICATION Spec
CONSTANTS N = 3
          M = 2
INVARIANTS BigTransposed BigInterior BigBuilt BigOrder BigComponents BigLayers BigCycle BigPreorder BigPreorderOnly
CHECK_DEADLOCK FALSE
