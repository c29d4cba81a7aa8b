SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  MaxWork = 2
  MaxN = 1
PROPERTIES Looks Apart Same
