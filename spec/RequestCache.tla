---------------------------- MODULE RequestCache ----------------------------
(* The request cache (utils/caches/request.go). A request looks its key up in *)
(* an LRU of entries, waits for the entry, and then either takes the outcome  *)
(* it holds (not expired) or fetches. Time is explicit.                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES now,     \* virtual time
          order,   \* cached [k, e], least recently used first
          ents,    \* entry id -> [v, err, exp, lock]; exp = -1: nothing to reuse
          th,      \* thread -> what its request is doing
          ended    \* key -> time of the latest end of a fetch

rvars == <<now, order, ents, th, ended>>

Never == -1
NoRet == [hm |-> "none", v |-> "", err |-> FALSE]
InvOk == [hm |-> "ok", v |-> "", err |-> FALSE]
NoLock == 0
CacheKeys == {order[n].k : n \in DOMAIN order}
Cached(k) == order[CHOOSE n \in DOMAIN order : order[n].k = k].e
Without(k) == SelectSeq(order, LAMBDA x : x.k # k)
RECURSIVE Trim(_, _)
Trim(o, cap) == IF Len(o) > cap THEN Trim(Tail(o), cap) ELSE o
Fun(f, x, v) == (x :> v) @@ f

RInit == /\ now = 0 /\ order = <<>> /\ ents = <<>>
         /\ th = [x \in {} |-> 0] /\ ended = [x \in {} |-> 0]

Begin(t, k, at) ==
  /\ now' = at
  /\ th' = Fun(th, t, [k |-> k, pc |-> "look", since |-> at, e |-> 0, ret |-> NoRet, start |-> 0])
  /\ UNCHANGED <<order, ents, ended>>

\* the entry is found, or created empty (making room if needed)
Lookup(t, cap) ==
  /\ t \in DOMAIN th /\ th[t].pc = "look"
  /\ LET k == th[t].k IN
     IF k \in CacheKeys
     THEN /\ order' = Append(Without(k), [k |-> k, e |-> Cached(k)])
          /\ th' = [th EXCEPT ![t].pc = "wait", ![t].e = Cached(k)]
          /\ UNCHANGED ents
     ELSE LET n == Len(ents) + 1 IN
          /\ ents' = Append(ents, [v |-> "", err |-> FALSE, exp |-> Never, lock |-> NoLock])
          /\ order' = Trim(Append(order, [k |-> k, e |-> n]), cap)
          /\ th' = [th EXCEPT ![t].pc = "wait", ![t].e = n]
  /\ UNCHANGED <<now, ended>>

FetchStart(t, k, at) ==
  /\ t \in DOMAIN th /\ th[t].pc = "wait" /\ th[t].k = k
  /\ LET e == ents[th[t].e] IN e.lock = NoLock /\ e.exp <= at
  /\ now' = at
  /\ ents' = [ents EXCEPT ![th[t].e].lock = t]
  /\ th' = [th EXCEPT ![t].pc = "fetch", ![t].start = at]
  /\ UNCHANGED <<order, ended>>

FetchEnd(t, v, err, ttl, at) ==
  /\ t \in DOMAIN th /\ th[t].pc = "fetch"
  /\ now' = at
  /\ ents' = [ents EXCEPT ![th[t].e] = IF ttl > 0 THEN [v |-> v, err |-> err, exp |-> at + ttl, lock |-> NoLock]
                                                  ELSE [@ EXCEPT !.exp = Never, !.lock = NoLock]]
  /\ th' = [th EXCEPT ![t].pc = "fin", ![t].ret = [hm |-> IF err THEN "err" ELSE "miss", v |-> v, err |-> err]]
  /\ ended' = Fun(ended, th[t].k, at)
  /\ UNCHANGED order

\* the entry holds an outcome that has not expired
Hit(t, slack) ==
  /\ t \in DOMAIN th /\ th[t].pc = "wait"
  /\ LET e == ents[th[t].e] IN
     /\ e.lock = NoLock /\ e.exp # Never /\ now <= e.exp + slack
     /\ th' = [th EXCEPT ![t].pc = "fin", ![t].ret = [hm |-> "hit", v |-> e.v, err |-> e.err]]
  /\ UNCHANGED <<now, order, ents, ended>>

End(t, at) ==
  /\ t \in DOMAIN th /\ th[t].pc = "fin"
  /\ now' = at
  /\ th' = [x \in DOMAIN th \ {t} |-> th[x]]
  /\ UNCHANGED <<order, ents, ended>>

\* a request that neither fetches nor waits for its own key takes no time
Prompt(t, at) == at = th[t].since \/ (th[t].k \in DOMAIN ended /\ ended[th[t].k] = at)

BeginInv(t, k, at) ==
  /\ now' = at
  /\ th' = Fun(th, t, [k |-> k, pc |-> "inv", since |-> at, e |-> 0, ret |-> NoRet, start |-> 0])
  /\ UNCHANGED <<order, ents, ended>>

DoInv(t) ==
  /\ t \in DOMAIN th /\ th[t].pc = "inv"
  /\ order' = Without(th[t].k)
  /\ th' = [th EXCEPT ![t].pc = "fin", ![t].ret = InvOk]
  /\ UNCHANGED <<now, ents, ended>>
=============================================================================
