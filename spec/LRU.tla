--------------------------------- MODULE LRU ---------------------------------
(* The size-bounded cache (utils/caches/lru.go): abstract state is the list of *)
(* cached entries from the least to the most recently used one.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

Keys(order) == {order[n].k : n \in DOMAIN order}
At(order, k) == CHOOSE n \in DOMAIN order : order[n].k = k
Drop(order, k) == SelectSeq(order, LAMBDA e : e.k # k)
RECURSIVE Size(_)
Size(order) == IF order = <<>> THEN 0 ELSE Head(order).size + Size(Tail(order))
RECURSIVE Evict(_, _)
Evict(order, cap) == IF Size(order) > cap THEN Evict(Tail(order), cap) ELSE order

\* A lookup; load is what the loader answers, should it be called.
\* The answer says whether the loader was called.
GetOutcome(st, k, load) ==
  IF k \in Keys(st.order)
  THEN LET e == st.order[At(st.order, k)] IN
       [s |-> [st EXCEPT !.order = Append(Drop(@, k), e)],
        ret |-> [hm |-> "hit", v |-> e.v, called |-> FALSE]]
  ELSE CASE load.out = "err"  -> [s |-> st, ret |-> [hm |-> "err", v |-> load.v, called |-> TRUE]]
         [] load.out = "ok" /\ load.size = 0
                              -> [s |-> st, ret |-> [hm |-> "no", v |-> load.v, called |-> TRUE]]
         [] load.out = "ok" /\ load.size > 0
                              -> [s |-> [st EXCEPT !.order = Evict(Append(@, [k |-> k, v |-> load.v, size |-> load.size]), st.cap)],
                                  ret |-> [hm |-> "miss", v |-> load.v, called |-> TRUE]]

InvOutcome(st, k) == [s |-> [st EXCEPT !.order = Drop(@, k)], ret |-> "ok"]

----------------------------------------------------------------------------
CONSTANTS KeySet, Caps, Sizes, Vals, MaxLen

VARIABLES st, act
vars == <<st, act>>
View == st

Loads == [out : {"ok"}, size : Sizes, v : Vals] \cup [out : {"err"}, size : {1}, v : {"e"}]

Init == /\ st \in [cap : Caps, order : {<<>>}]
        /\ act = [op |-> "init"]

Get(k, load) == LET o == GetOutcome(st, k, load) IN
  /\ st' = o.s
  /\ act' = [op |-> "get", k |-> k, load |-> load, ret |-> o.ret, obs |-> Keys(o.s.order)]

Invalidate(k) == LET o == InvOutcome(st, k) IN
  /\ st' = o.s
  /\ act' = [op |-> "inv", k |-> k, ret |-> o.ret, obs |-> Keys(o.s.order)]

Next == \E k \in KeySet : Invalidate(k) \/ \E l \in Loads : Get(k, l)
Spec == Init /\ [][Next]_vars

Emit == PrintT(ToJson([f |-> st, t |-> st', a |-> act', l |-> TLCGet("level")]))

\* properties
Bounded == Size(st.order) <= st.cap
OneEntryPerKey == \A a, b \in DOMAIN st.order : st.order[a].k = st.order[b].k => a = b
\* an eviction removes only a prefix of the recency order
EvictOldest == [][ act'.op = "get" =>
     LET gone == Keys(st.order) \ Keys(st'.order) IN
     \A n, m \in DOMAIN st.order : (st.order[n].k \in gone /\ m < n) => st.order[m].k \in gone \/ st.order[m].k = act'.k ]_vars
HitMeansCached == [][ (act'.op = "get" /\ act'.k \in Keys(st.order)) => act'.ret.hm = "hit" /\ ~act'.ret.called ]_vars
NoNeedlessEviction == [][ act'.op = "get" /\ act'.ret.hm = "miss" /\ act'.k \in Keys(st'.order) =>
     \/ Keys(st.order) \subseteq Keys(st'.order)
     \/ LET gone == {n \in DOMAIN st.order : st.order[n].k \notin Keys(st'.order)}
            last == CHOOSE n \in gone : \A m \in gone : m <= n
        IN Size(st'.order) + st.order[last].size > st.cap ]_vars
=============================================================================
