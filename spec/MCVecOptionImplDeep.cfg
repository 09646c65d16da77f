SPECIFICATION Spec
CONSTANTS Items = {a, b, c, d, e, f, g, h}
          Cap = 4
INVARIANTS Sane AtRest OnceEach
CHECK_DEADLOCK FALSE
