SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  NameSet = {"a", "b", "c"}
  Ids = {"1", "2", "3"}
PROPERTY FirstStays
