------------------------------ MODULE LRUTrace ------------------------------
(* Concurrent histories of the cache. The loader's answer is part of the      *)
(* recorded call: load.out = "none" when the call did not reach the loader.   *)
EXTENDS LinTrace, SequencesExt
L == INSTANCE LRU WITH KeySet <- {}, Caps <- {}, Sizes <- {}, Vals <- {}, MaxLen <- 0, st <- s, act <- 0
LRUInit(init) == [cap |-> init.cap, order |-> <<>>]
LRUApply(st, op) ==
  CASE op.op = "get" -> IF op.load.out = "none" /\ op.k \notin L!Keys(st.order) THEN {}
                        ELSE {L!GetOutcome(st, op.k, op.load)}
    [] op.op = "inv" -> {L!InvOutcome(st, op.k)}
    [] op.op = "keys" -> IF ToSet(op.seen) = L!Keys(st.order) /\ Len(op.seen) = Len(st.order) THEN {[s |-> st, ret |-> "ok"]} ELSE {}
=============================================================================
