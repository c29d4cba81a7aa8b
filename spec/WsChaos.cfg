SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANT Handlers = {"generic", "rpc"}
CONSTANT Kinds = {"ping", "ping-125", "ping-big", "ping-fragment", "pong", "pong-big", "close", "close-code", "close-short", "close-big", "close-utf8", "continuation", "fragment", "fragments", "op-3", "op-7", "op-11", "op-15", "rsv", "unmasked", "binary", "binary-junk", "utf8", "not-json", "empty", "list", "number", "null", "string", "true", "deep", "deep-object", "deep-data", "huge", "huge-string", "big-number", "wrong-types", "keys", "zero", "long-length", "many", "trailing", "surrogate", "open-again", "names", "data-shapes"}
CONSTANT Parts = {"header", "length", "mask", "payload", "long", "negative", "http", "noise", "flood"}
PROPERTY Others
CHECK_DEADLOCK FALSE
