SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  Vals <- MCVals
  MaxOps = 3
INVARIANT AllSane
PROPERTY OthersAlone
