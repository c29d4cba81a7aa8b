SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  Tokens = {"t0", "t1", "t2"}
  MaxOps = 3
PROPERTY OneSeries
