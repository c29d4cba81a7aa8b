SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  MaxDepth = 3
  MaxLen = 3
PROPERTIES Scoped Inherits Shifts
