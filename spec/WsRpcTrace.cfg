SPECIFICATION TSpec
CONSTRAINT Accept
CHECK_DEADLOCK FALSE
