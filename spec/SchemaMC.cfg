SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANT Deep = FALSE
INVARIANT Closed
PROPERTY Grows
