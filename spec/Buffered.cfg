SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
INVARIANTS InOrder Eof NotStuck
