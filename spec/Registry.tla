------------------------------ MODULE Registry ------------------------------
(* The registry of metrics: name -> the metric first registered under it.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
RegOutcome(m, name, id) ==
  IF name \in DOMAIN m THEN [s |-> m, ret |-> "refused"] ELSE [s |-> (name :> id) @@ m, ret |-> "ok"]
CONSTANTS NameSet, Ids
VARIABLES st, act
vars == <<st, act>>
View == st
Shown(m) == [n \in NameSet |-> IF n \in DOMAIN m THEN m[n] ELSE "-"]
Init == st = [x \in {} |-> 0] /\ act = [op |-> "init"]
Next == \E n \in NameSet, id \in Ids : LET o == RegOutcome(st, n, id) IN
   st' = o.s /\ act' = [op |-> "reg", k |-> n, v |-> id, ret |-> o.ret, obs |-> Shown(o.s)]
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> Shown(st), t |-> Shown(st'), a |-> act', l |-> TLCGet("level")]))
FirstStays == [][\A n \in DOMAIN st : n \in DOMAIN st' /\ st'[n] = st[n]]_vars
=============================================================================
