SPECIFICATION LSpec
CONSTRAINT Accept
CONSTANTS InitOf <- SInit
 Apply <- SApply
CHECK_DEADLOCK FALSE
