SPECIFICATION ASpec
CONSTANTS Items = {1}
          MaxLen = 3
INVARIANT AEmit
CHECK_DEADLOCK FALSE
