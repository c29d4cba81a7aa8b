SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANT Holds = {1}
CONSTANT Haws = {1}
CONSTANT Dones = {1}
CONSTANT Again = FALSE
CONSTANT Signals = {"int", "term", "quit"}
PROPERTY Complete OneWay
INVARIANT Prompt HawWaits Escalate
