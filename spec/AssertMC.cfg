SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANT MaxLen = 4
INVARIANT Laws
PROPERTY Conserved
