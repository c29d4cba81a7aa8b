SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANT Servers = {1, 2}
CONSTANT Requests = {1, 2}
CONSTANT Kinds = {"handle", "stream", "upload"}
PROPERTY Drained
INVARIANT Held
