------------------------------- MODULE Labels -------------------------------
(* Series are told apart by the values of their labels, whatever the values.  *)
(* Tokens stand for arbitrary strings, all different.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Tokens, MaxOps
Names == {"a", "b"}
VARIABLES st, act
vars == <<st, act>>
View == st
Pair(x, y) == x \o "," \o y
Pairs == {Pair(x, y) : x, y \in Tokens}
Init == /\ \E kind \in {"counter", "gauge", "func", "histogram"} : st = [kind |-> kind, n |-> [p \in Pairs |-> 0], ops |-> 0]
        /\ act = [op |-> "init"]
Obs(x, y) == /\ st.ops < MaxOps
             /\ st' = [st EXCEPT !.n[Pair(x, y)] = @ + 1, !.ops = @ + 1]
             /\ act' = [op |-> "obs", x |-> x, y |-> y, ret |-> "ok", obs |-> st'.n]
\* a wrong number of label values is refused, and changes nothing
Bad(n) == /\ UNCHANGED st
          /\ act' = [op |-> "bad", n |-> n, ret |-> "refused", obs |-> st.n]
Next == (\E x, y \in Tokens : Obs(x, y)) \/ \E n \in {0, 1, 3} : Bad(n)
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> st, t |-> st', a |-> act', l |-> TLCGet("level")]))
OneSeries == [][act'.op = "obs" => Cardinality({p \in Pairs : st'.n[p] # st.n[p]}) = 1]_vars
=============================================================================
