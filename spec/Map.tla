--------------------------------- MODULE Map ---------------------------------
(* The typed concurrent map (utils/sync/map.go) and set (utils/lists/set.go).  *)
(* Values are tokens: "nil" stands for the zero value of the element type.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
V(m, k) == IF k \in DOMAIN m THEN m[k] ELSE "nil"
Has(m, k) == k \in DOMAIN m
Put(m, k, v) == (k :> v) @@ m
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Pairs(m) == {<<k, m[k]>> : k \in DOMAIN m}

\* one atomic operation: what it answers, and the next content
Outcome(m, op) ==
  CASE op.op = "get"   -> [s |-> m, ret |-> [v |-> V(m, op.k), ok |-> TRUE]]
    [] op.op = "load"  -> [s |-> m, ret |-> [v |-> V(m, op.k), ok |-> Has(m, op.k)]]
    [] op.op = "store" -> [s |-> Put(m, op.k, op.v), ret |-> [v |-> "nil", ok |-> TRUE]]
    [] op.op = "gos"   -> IF Has(m, op.k) THEN [s |-> m, ret |-> [v |-> m[op.k], ok |-> TRUE]]
                          ELSE [s |-> Put(m, op.k, op.v), ret |-> [v |-> op.v, ok |-> TRUE]]
    [] op.op = "los"   -> IF Has(m, op.k) THEN [s |-> m, ret |-> [v |-> m[op.k], ok |-> TRUE]]
                          ELSE [s |-> Put(m, op.k, op.v), ret |-> [v |-> op.v, ok |-> FALSE]]
    [] op.op = "del"   -> [s |-> Del(m, op.k), ret |-> [v |-> "nil", ok |-> TRUE]]
    [] op.op = "lad"   -> [s |-> Del(m, op.k), ret |-> [v |-> V(m, op.k), ok |-> Has(m, op.k)]]
    [] op.op = "add"   -> [s |-> IF Has(m, op.k) THEN m ELSE Put(m, op.k, "in"), ret |-> [v |-> "nil", ok |-> ~Has(m, op.k)]]
    [] op.op = "has"   -> [s |-> m, ret |-> [v |-> "nil", ok |-> Has(m, op.k)]]
    [] op.op = "remove" -> [s |-> Del(m, op.k), ret |-> [v |-> "nil", ok |-> Has(m, op.k)]]
    \* merges the pairs of a serialized map
    [] op.op = "unmarshal" -> [s |-> op.m @@ m, ret |-> [v |-> "nil", ok |-> TRUE]]

CONSTANTS KeySet, Vals
VARIABLES st, act
vars == <<st, act>>
View == st
Content(m) == [k \in KeySet |-> IF k \in DOMAIN m THEN m[k] ELSE "-"]
Init == st = [x \in {} |-> 0] /\ act = [op |-> "init"]
Ops == [op : {"get", "load", "del", "lad"}, k : KeySet] \cup [op : {"store", "gos", "los"}, k : KeySet, v : Vals]
       \cup [op : {"unmarshal"}, m : UNION {[d -> Vals] : d \in {{k} : k \in KeySet} \cup {KeySet}}]
Do(op) == LET o == Outcome(st, op) IN
  /\ st' = o.s
  /\ act' = [ret |-> o.ret, obs |-> [content |-> Content(o.s), empty |-> DOMAIN o.s = {}]] @@ op
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> Content(st), t |-> Content(st'), a |-> act', l |-> TLCGet("level")]))
OnlyItsKey == [][act'.op # "unmarshal" => \A k \in KeySet : k # act'.k => Content(st')[k] = Content(st)[k]]_vars
\* what was stored, even a nil, is there
StoreStays == [][act'.op \in {"store", "gos", "los"} => Has(st', act'.k)]_vars
=============================================================================
