SPECIFICATION TSpec
CONSTRAINT Accept
VIEW TView
CONSTANTS
  MaxNodes = 100
