------------------------------ MODULE MemTrace ------------------------------
EXTENDS LinTrace
M == INSTANCE Mem WITH KeySet <- {}, Vals <- {}, st <- s, act <- 0
MInit(init) == Empty
MApply(m, op) ==
  CASE op.op = "get" -> IF op.load.out = "none" /\ op.k \notin DOMAIN m THEN {} ELSE {M!GetOutcome(m, op.k, op.load)}
    [] op.op = "inv" -> {M!InvOutcome(m, op.k)}
=============================================================================
