------------------------------- MODULE Metrics -------------------------------
(* Counters, gauges and histograms (utils/prom). Numbers are in quarters, so   *)
(* that they are exact everywhere. A series is [on, sum, count, b].            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* what a series that does not exist looks like, and a new one
Off(les) == [on |-> FALSE, sum |-> 0, count |-> 0, b |-> [n \in DOMAIN les |-> 0]]
Fresh(les) == [Off(les) EXCEPT !.on = TRUE]

Upd(x, op, les) ==
  CASE op.op = "add"  -> [x EXCEPT !.on = TRUE, !.sum = @ + op.v]
    [] op.op = "set"  -> [x EXCEPT !.on = TRUE, !.sum = op.v]
    [] op.op = "unset" -> [x EXCEPT !.on = FALSE, !.sum = 0]
    [] op.op = "obs"  -> [on |-> TRUE, sum |-> x.sum + op.v, count |-> x.count + 1,
                          b |-> [n \in DOMAIN les |-> x.b[n] + IF op.v <= les[n] THEN 1 ELSE 0]]

\* buckets are cumulative
Sane(x) == /\ \A n \in DOMAIN x.b : x.b[n] \in 0..x.count
           /\ \A n \in DOMAIN x.b \ {1} : x.b[n-1] <= x.b[n]

CONSTANTS Vals, MaxOps
MCVals == {-4, 0, 4, 10, 11}
LesOf == [counter |-> <<>>, gauge |-> <<>>, counterGauge |-> <<>>, histogram |-> <<4, 10>>]
VARIABLES st, act
vars == <<st, act>>
View == st
Keys(n) == IF n = 0 THEN {"c1"} ELSE {"c1", "c2"}
Init == /\ \E k \in DOMAIN LesOf, n \in {0, 1, 2} :
             st = [kind |-> k, labels |-> n, les |-> LesOf[k], n |-> 0,
                   x |-> [s \in Keys(n) \cup IF k = "gauge" /\ n > 0 THEN {"f"} ELSE {} |-> Off(LesOf[k])]]
        /\ act = [op |-> "init"]
Do(op) == /\ st.n < MaxOps
          /\ st' = [st EXCEPT !.x[op.k] = Upd(@, op, st.les), !.n = @ + 1]
          /\ act' = [ret |-> "ok", obs |-> st'.x] @@ op
Next == \E k \in DOMAIN st.x :
  \/ k # "f" /\ st.kind # "histogram" /\ \E v \in Vals : (st.kind = "gauge" => v % 4 = 0) /\ Do([op |-> "add", k |-> k, v |-> v])
  \/ st.kind = "histogram" /\ \E v \in Vals : Do([op |-> "obs", k |-> k, v |-> v])
  \/ k = "f" /\ \E v \in Vals : Do([op |-> "set", k |-> k, v |-> v])
  \/ k = "f" /\ Do([op |-> "unset", k |-> k, v |-> 0])
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> st, t |-> st', a |-> act', l |-> TLCGet("level")]))
AllSane == \A k \in DOMAIN st.x : Sane(st.x[k])
OthersAlone == [][\A k \in DOMAIN st.x : k # act'.k => st'.x[k] = st.x[k]]_vars
=============================================================================
