SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANT Reqs = {1, 2}
CONSTANT Max = 1
PROPERTY Isolated Fresh
