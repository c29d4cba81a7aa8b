SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  KeySet = {"a", "b", "c", "d"}
  Vals = {"x", "y", ""}
PROPERTIES AtMostOneLoad InvalidateOne
