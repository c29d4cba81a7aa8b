SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  KeySet = {"a", "b", "c"}
  Vals = {"nil", "x", "y"}
PROPERTIES OnlyItsKey StoreStays
