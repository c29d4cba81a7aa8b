SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANT Groups = {1, 2, 3, 4, 5}
CONSTANT Wide = 1
PROPERTY RoundTrip NullIsZero Fresh
