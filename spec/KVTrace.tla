------------------------------- MODULE KVTrace -------------------------------
(* Concurrent histories. A scan is recorded as answered when it first calls    *)
(* back: its one moment must be before that. seen: what it visited.            *)
EXTENDS LinTrace, SequencesExt
K == INSTANCE KV WITH KeySet <- {}, FVals <- {}, GVals <- {}, st <- s, act <- 0
KInit(init) == Empty
SeenKeys(op) == {op.seen[n].k : n \in DOMAIN op.seen}
KApply(m, op) ==
  CASE op.op = "get" -> {[s |-> m, ret |-> IF op.k \in DOMAIN m THEN m[op.k] ELSE K!None]}
    [] op.op = "upsert" -> {[s |-> K!Put(m, op.k, op.e), ret |-> "ok"]}
    [] op.op = "del" -> {[s |-> K!Del(m, op.k), ret |-> "ok"]}
    [] op.op = "scan" ->
         IF /\ op.out = "filter" => K!MayFail(op.flts) /\ op.seen = <<>>
            /\ op.out # "filter" => ~K!MustFail(m, op.flts)
            /\ Cardinality(SeenKeys(op)) = Len(op.seen)
            /\ \A n \in DOMAIN op.seen : op.seen[n].k \in DOMAIN m /\ m[op.seen[n].k] = op.seen[n].e
            /\ (op.out # "filter" /\ ~K!MayFail(op.flts)) =>
                 /\ SeenKeys(op) \subseteq K!Visible(m, op.flts)
                 /\ op.stopped = "no" => op.out = "ok" /\ SeenKeys(op) = K!Visible(m, op.flts)
                 /\ op.stopped = "eod" => op.out = "ok" /\ Len(op.seen) = op.limit
                 /\ op.stopped = "err" => op.out = "err" /\ Len(op.seen) = op.limit
         THEN {[s |-> m, ret |-> "ok"]} ELSE {}
=============================================================================
