SPECIFICATION Spec
CONSTANTS Items = {a, b, c, d, e, f}
          Cap = 3
INVARIANTS Sane AtRest OnceEach
SYMMETRY Sym
CHECK_DEADLOCK FALSE
