SPECIFICATION Spec
CONSTANTS N = 3
          M = 4
INVARIANTS CycleDefs PreorderIsPaths PreorderPrefix TransposeTwice BuiltBack LayeringDef OrderDef ChainsDef
CHECK_DEADLOCK FALSE
