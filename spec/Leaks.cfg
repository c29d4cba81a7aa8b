SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  MaxLive = 2
INVARIANTS TypeOK Ends
PROPERTIES Apart
