SPECIFICATION Spec
CONSTANTS Items = {1, 2}
          MaxLen = 4
INVARIANTS TypeOK ViewsAgree Inductive Conserved
VIEW View
CHECK_DEADLOCK FALSE
