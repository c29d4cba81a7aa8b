SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  MaxLen = 6
INVARIANTS RoundTrip Keys Single Closing
