SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 3}
  MaxTime = 2
  MaxChunks = 2
INVARIANTS Whole Prompt
PROPERTIES Returns
