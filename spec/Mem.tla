--------------------------------- MODULE Mem ---------------------------------
(* The unbounded cache (utils/caches/mem.go): a partial map from keys to values *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

GetOutcome(m, k, load) ==
  IF k \in DOMAIN m THEN [s |-> m, ret |-> [hm |-> "hit", v |-> m[k], called |-> FALSE]]
  ELSE IF load.out = "err" THEN [s |-> m, ret |-> [hm |-> "err", v |-> load.v, called |-> TRUE]]
  ELSE [s |-> (k :> load.v) @@ m, ret |-> [hm |-> "miss", v |-> load.v, called |-> TRUE]]
InvOutcome(m, k) == [s |-> [x \in DOMAIN m \ {k} |-> m[x]], ret |-> "ok"]

CONSTANTS KeySet, Vals
VARIABLES st, act
vars == <<st, act>>
View == st
Loads == [out : {"ok"}, v : Vals] \cup [out : {"err"}, v : {"e"}]
Init == st = [x \in {} |-> 0] /\ act = [op |-> "init"]
Get(k, load) == LET o == GetOutcome(st, k, load) IN
  st' = o.s /\ act' = [op |-> "get", k |-> k, load |-> load, ret |-> o.ret]
Invalidate(k) == LET o == InvOutcome(st, k) IN
  st' = o.s /\ act' = [op |-> "inv", k |-> k, ret |-> o.ret]
Next == \E k \in KeySet : Invalidate(k) \/ \E l \in Loads : Get(k, l)
Spec == Init /\ [][Next]_vars
Json0(m) == [c |-> [k \in KeySet |-> IF k \in DOMAIN m THEN m[k] ELSE "-"]]
Emit == PrintT(ToJson([f |-> Json0(st), t |-> Json0(st'), a |-> act', l |-> TLCGet("level")]))

AtMostOneLoad == [][\A k \in DOMAIN st : act'.op = "get" => k \in DOMAIN st' /\ st'[k] = st[k]]_vars
InvalidateOne == [][act'.op = "inv" => \A k \in DOMAIN st : k # act'.k => k \in DOMAIN st' /\ st'[k] = st[k]]_vars
=============================================================================
