SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  Clients = {"c1", "c2"}
  Uas = {"u1", "none"}
  Paths = {"p1", "p2"}
PROPERTIES Isolated Named
