SPECIFICATION TSpec
CONSTRAINT Accept
