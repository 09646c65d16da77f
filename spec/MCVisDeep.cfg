SPECIFICATION Spec
CONSTANTS K = 3
          First = {3}
          Second = {1, 3}
          Mode = "ok"
INVARIANTS VertexPairs PointToVertex
CHECK_DEADLOCK FALSE
