SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANT Types = {"string", "int", "float", "ptr", "list", "map", "struct", "named", "bool", "uint"}
CONSTANT Ids = {"none", "v3", "bad"}
PROPERTY OnlyIn OnlyOut OnlyBack OnlyAuth Needed
