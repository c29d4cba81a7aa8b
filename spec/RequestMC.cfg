SPECIFICATION MSpec
CONSTANTS
  Threads = {1, 2}
  KeySet = {"a", "b"}
  Cap = 1
  MaxTime = 2
  MaxEnts = 3
  TTLs = {0, 1}
INVARIANTS Bounded SingleFlight OwnKey
PROPERTY FreshHit
