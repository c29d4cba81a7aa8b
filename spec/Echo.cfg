SPECIFICATION Spec
CONSTANT Delay = 5
CONSTANT Slack = 2
CONSTANT Never = 99
CONSTANT End = 14
CONSTANT Requests = {1, 2, 3}
INVARIANT Sound
PROPERTY Once
