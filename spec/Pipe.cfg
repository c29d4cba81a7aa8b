SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Caps = {0, 1}
INVARIANTS Fifo Reported Eof NotStuck
