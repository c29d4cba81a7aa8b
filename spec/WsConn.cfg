SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANT Conns = {1, 2}
CONSTANT Rpc = FALSE
CONSTANT MaxQ = 1
CONSTANT MaxD = 2
PROPERTY Order
INVARIANT Ends
CHECK_DEADLOCK FALSE
