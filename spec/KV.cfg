SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  KeySet = {"a", "b"}
  FVals = {"missing", "null", "x", "y"}
  GVals = {"missing", "x"}
INVARIANT Partition
PROPERTY ReadsLatest
