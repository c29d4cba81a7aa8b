SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANT Sizes = {0, 1, 100, 16384, 16385, 70000}
CONSTANT Codes = {400, 401, 404, 409, 422, 451, 499, 500, 501, 503, 599}
CONSTANT Kinds = {"plain", "direct", "nil", "newf", "ctx", "fmt", "join", "nested", "deep", "nestedout"}
PROPERTY NoLeak NoUndecodable
