SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  MaxNodes = 3
  Levels = {1, 3}
  Args = {"plain", "secret", "tagger", "error", "cerror", "number", "lerror"}
PROPERTIES Immutable Secret
