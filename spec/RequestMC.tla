------------------------------ MODULE RequestMC ------------------------------
(* The closed model of the request cache: its invariants, exhaustively.       *)
EXTENDS RequestCache
CONSTANTS Threads, KeySet, Cap, MaxTime, MaxEnts, TTLs

VARIABLE born  \* entry id -> time of the fetch whose outcome it holds, and last invalidation per key
vars == <<rvars, born>>
NoEv == UNCHANGED born
MInit == RInit /\ born = [k \in KeySet |-> 0]
Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<order, ents, th, ended, born>>
MNext == \/ Tick
         \/ \E t \in Threads : t \notin DOMAIN th /\ Len(ents) < MaxEnts /\ \E k \in KeySet :
               (Begin(t, k, now) /\ NoEv) \/ (BeginInv(t, k, now) /\ NoEv)
         \/ \E t \in Threads : \/ Lookup(t, Cap) /\ Len(ents) < MaxEnts /\ NoEv
                               \/ Hit(t, 0) /\ NoEv
                               \/ \E k \in KeySet : FetchStart(t, k, now) /\ NoEv
                               \/ \E ttl \in TTLs, err \in BOOLEAN : t \in DOMAIN th /\ FetchEnd(t, th[t].k, err, ttl, now) /\ NoEv
                               \/ End(t, now) /\ NoEv
                               \/ DoInv(t) /\ born' = [born EXCEPT ![th[t].k] = now]
MSpec == MInit /\ [][MNext]_vars

Bounded == Len(order) <= Cap
\* at most one fetch per key at a time, among requests that share the cached entry
SingleFlight == \A a, b \in DOMAIN th : (a # b /\ th[a].pc = "fetch" /\ th[b].pc = "fetch") => th[a].e # th[b].e
OwnKey == \A t \in DOMAIN th : (th[t].pc = "fin" /\ th[t].ret # InvOk) => th[t].ret.v = th[t].k
FreshHit == [][\A t \in Threads : (t \in DOMAIN th /\ th[t].pc = "wait" /\ t \in DOMAIN th' /\ th'[t].pc = "fin")
                   => ents[th[t].e].exp >= now]_vars
=============================================================================
