SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  MaxNodes = 4
  MaxCancels = 2
INVARIANTS Downward DetachedLives SpanIds
PROPERTIES Immutable Forever
