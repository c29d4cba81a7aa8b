SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  Keys = {"a", "b", "c", "d"}
  Vals = {1, 2}
INVARIANTS Distinct
PROPERTIES Order
