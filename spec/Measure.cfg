SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANT Finals = {200, 201, 204, 404, 500}
CONSTANT Readies = {204, 503}
CONSTANT Methods = {"GET", "POST", "HEAD", "PATCH"}
CONSTANT MaxLen = 1
CONSTANT Long = 2
PROPERTY Once FirstWins
