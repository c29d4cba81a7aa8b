SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANT Holds = {1, 2}
CONSTANT Haws = {1}
CONSTANT Dones = {1, 2}
CONSTANT Again = TRUE
CONSTANT Signals = {}
PROPERTY Complete OneWay
INVARIANT Prompt HawWaits Escalate
