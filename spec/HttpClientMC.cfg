SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANT MaxOpen = 2
PROPERTY Released
