SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  Elems = {0, 1, 2, 3}
  MaxLen = 4
  MaxSplit = 5
INVARIANTS Twice
PROPERTIES Kept
