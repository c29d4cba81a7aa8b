------------------------------- MODULE OrdMap -------------------------------
(* A map which remembers the order of insertion: a sequence of pairs.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Vals
VARIABLES m, act
vars == <<m, act>>
View == m
At(s, k) == {j \in DOMAIN s : s[j].k = k}
Has(s, k) == At(s, k) # {}
Val(s, k) == LET at == At(s, k) IN IF at = {} THEN [found |-> FALSE, v |-> 0] ELSE [found |-> TRUE, v |-> s[CHOOSE j \in at : TRUE].v]
Put(s, k, v) == IF Has(s, k) THEN [j \in DOMAIN s |-> IF s[j].k = k THEN [k |-> k, v |-> v] ELSE s[j]] ELSE Append(s, [k |-> k, v |-> v])
Del(s, k) == SelectSeq(s, LAMBDA p : p.k # k)
\* everything that shows the content
Look(s) == [len |-> Len(s), keys |-> [j \in DOMAIN s |-> s[j].k], vals |-> [j \in DOMAIN s |-> s[j].v],
            pairs |-> s, get |-> [k \in Keys |-> Val(s, k)]]
\* iteration which fails at the n-th pair: what it saw, and whether it returned the error
Range(s, n) == [saw |-> IF n = 0 \/ n > Len(s) THEN s ELSE SubSeq(s, 1, n), err |-> n # 0 /\ n <= Len(s)]
Init == m = <<>> /\ act = [op |-> "init"]
Next ==
  \/ \E k \in Keys, v \in Vals : m' = Put(m, k, v) /\ act' = [op |-> "put", k |-> k, v |-> v, ret |-> Val(m, k), obs |-> Look(m')]
  \/ \E k \in Keys : m' = Del(m, k) /\ act' = [op |-> "del", k |-> k, ret |-> Val(m, k), obs |-> Look(m')]
  \/ \E n \in 0..Cardinality(Keys) : UNCHANGED m /\ act' = [op |-> "range", n |-> n, ret |-> Range(m, n), obs |-> Look(m)]
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> [m |-> m], t |-> [m |-> m'], a |-> act', l |-> TLCGet("level")]))
Distinct == \A i, j \in DOMAIN m : m[i].k = m[j].k => i = j
\* the order of what stays does not change; what is new comes last
Order == [][\A i, j \in DOMAIN m : (i < j /\ Has(m', m[i].k) /\ Has(m', m[j].k)) =>
            (CHOOSE x \in At(m', m[i].k) : TRUE) < (CHOOSE x \in At(m', m[j].k) : TRUE)]_m
=============================================================================
