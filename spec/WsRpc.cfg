SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANT Conns = {"a", "b"}
CONSTANT Full = {"a"}
CONSTANT M = 2
CONSTANT MaxQ = 1
CONSTANT Lite = TRUE
CONSTANT Blocks = TRUE
PROPERTY Isolated
PROPERTY OwnObject
PROPERTY Answered
CHECK_DEADLOCK FALSE
