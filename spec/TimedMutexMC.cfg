SPECIFICATION MSpec
CONSTANTS
  Threads = {1, 2, 3}
  MaxTime = 4
INVARIANTS Exclusive OwnerIsIn
PROPERTY FailOk
