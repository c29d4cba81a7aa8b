SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANT Paths = {"/a", "/b", "/c"}
CONSTANT Max = 2
PROPERTY OthersKept
