SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  KeySet = {"a", "b", "c"}
  Caps = {0, 1, 2, 3, 4}
  Sizes = {0, 1, 2, 3}
  Vals = {"x", "y"}
  MaxLen = 0
INVARIANTS Bounded OneEntryPerKey
PROPERTIES EvictOldest HitMeansCached NoNeedlessEviction
