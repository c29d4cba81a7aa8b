SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  MaxNodes = 4
INVARIANTS OneOrigin Below Found
PROPERTIES Kept
