------------------------------- MODULE CtxTree -------------------------------
(* Trees of contexts (package ctx). A node knows its parent, what it adds, and *)
(* how it was cancelled. Time only matters for deadlines. Identifiers and tag  *)
(* values are tokens; a fresh identifier is named after its node.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

Root == [p |-> 0, kind |-> "root", k |-> "", v |-> "", id |-> "", dead |-> -1, err |-> "none", cause |-> "none"]

RECURSIVE Tags(_, _), Val(_, _, _), Id(_, _), UpTo(_, _)
Tags(ns, n) == IF n = 0 THEN <<>> ELSE
  Tags(ns, ns[n].p) \o CASE ns[n].kind = "tag" -> <<[k |-> ns[n].k, v |-> ns[n].v]>>
                         [] ns[n].kind = "track" -> <<[k |-> "tracking-id", v |-> ns[n].id]>>
                         [] OTHER -> <<>>
Val(ns, n, k) == IF n = 0 THEN "none" ELSE IF ns[n].kind = "value" /\ ns[n].k = k THEN ns[n].v ELSE Val(ns, ns[n].p, k)
Id(ns, n) == IF n = 0 THEN "" ELSE IF ns[n].kind = "track" THEN ns[n].id ELSE Id(ns, ns[n].p)
\* the nodes from n up to the nearest detached one: where cancellations of n come from
UpTo(ns, n) == IF n = 0 THEN {} ELSE {n} \cup IF ns[n].kind = "detach" THEN {} ELSE UpTo(ns, ns[n].p)

\* deadline in force at n, -1 if none
Deadline(ns, n) == LET ds == {ns[m].dead : m \in {m \in UpTo(ns, n) : ns[m].dead # -1}} IN
  IF ds = {} THEN -1 ELSE CHOOSE d \in ds : \A e \in ds : d <= e

\* cancel reaches the descendants which are not cancelled yet
Reach(ns, n) == {m \in DOMAIN ns : n \in UpTo(ns, m) /\ ns[m].err = "none"}
Cancel(ns, n, err, cause) == [m \in DOMAIN ns |-> IF m \in Reach(ns, n) /\ ns[n].err = "none" THEN [ns[m] EXCEPT !.err = err, !.cause = cause] ELSE ns[m]]

RECURSIVE Expire(_, _, _)
Expire(ns, n, now) == IF n > Len(ns) THEN ns ELSE
  Expire(IF ns[n].dead # -1 /\ ns[n].dead <= now /\ ns[n].err = "none" THEN Cancel(ns, n, "deadline", "deadline") ELSE ns, n + 1, now)

Derive(ns, p, kind, k, v, id, dead, now) ==
  Expire(Append(ns, [p |-> p, kind |-> kind, k |-> k, v |-> v, id |-> id, dead |-> dead,
                     err |-> IF kind = "detach" THEN "none" ELSE ns[p].err,
                     cause |-> IF kind = "detach" THEN "none" ELSE ns[p].cause]), 1, now)

Fresh(n) == "n" \o ToString(n)
\* a span is cancellable, and tracked under a new identifier
Span(ns, p, now) == LET a == Derive(ns, p, "spanc", "", "", "", -1, now) IN
  Derive(a, Len(a), "track", "", "", Fresh(Len(a) + 1), -1, now)

Look(ns, n) == [tags |-> Tags(ns, n), x |-> Val(ns, n, "x"), y |-> Val(ns, n, "y"), id |-> Id(ns, n),
                err |-> ns[n].err, cause |-> ns[n].cause, dead |-> Deadline(ns, n)]
\* the cancellable node inside a span is only reached through the span
LookAll(ns) == [n \in DOMAIN ns |-> IF ns[n].kind = "spanc" THEN [tags |-> <<>>, x |-> "", y |-> "", id |-> "", err |-> "", cause |-> "", dead |-> -1] ELSE Look(ns, n)]

CONSTANTS MaxNodes, MaxCancels
VARIABLES st, act
vars == <<st, act>>
View == st
Init == st = [ns |-> <<Root>>, c |-> 0] /\ act = [op |-> "init"]
Go(ns, c, a) == st' = [ns |-> ns, c |-> c] /\ act' = [ret |-> "ok", obs |-> LookAll(ns)] @@ a
Add(p) == LET ns == st.ns  n == Len(ns) + 1 IN
  /\ n <= MaxNodes /\ ns[p].kind # "spanc"
  /\ \/ \E k \in {"a", "b"} : Go(Derive(ns, p, "tag", k, Fresh(n), "", -1, 0), st.c, [op |-> "tag", p |-> p, k |-> k])
     \/ \E k \in {"x", "y"} : Go(Derive(ns, p, "value", k, Fresh(n), "", -1, 0), st.c, [op |-> "value", p |-> p, k |-> k])
     \/ Go(Derive(ns, p, "cancel", "", "", "", -1, 0), st.c, [op |-> "cancellable", p |-> p])
     \/ Go(Derive(ns, p, "detach", "", "", "", -1, 0), st.c, [op |-> "detach", p |-> p])
     \/ Go(Derive(ns, p, "track", "", "", "sug" \o ToString(n), -1, 0), st.c, [op |-> "track", p |-> p, sug |-> TRUE])
     \/ Go(Derive(ns, p, "track", "", "", Fresh(n), -1, 0), st.c, [op |-> "track", p |-> p, sug |-> FALSE])
     \/ n < MaxNodes /\ Go(Span(ns, p, 0), st.c, [op |-> "span", p |-> p])
DoCancel(n) == \E c \in {"cause", "none"} :
  /\ st.c < MaxCancels /\ st.ns[n].kind \in {"cancel", "spanc"}
  /\ Go(Cancel(st.ns, n, "canceled", IF c = "none" THEN "canceled" ELSE "c" \o ToString(n)), st.c + 1, [op |-> "cancel", n |-> n, cause |-> c])
Next == \E n \in DOMAIN st.ns : Add(n) \/ DoCancel(n)
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> st, t |-> st', a |-> act', l |-> TLCGet("level")]))

\* deriving and cancelling changes no tag, value or identifier of what was there
Immutable == [][\A n \in DOMAIN st.ns : LET a == Look(st.ns, n)  b == Look(st'.ns, n) IN
    a.tags = b.tags /\ a.x = b.x /\ a.y = b.y /\ a.id = b.id /\ a.dead = b.dead]_vars
\* cancellation is for ever, and a child of a cancelled context is cancelled, unless detached
Downward == \A n \in DOMAIN st.ns : (n > 1 /\ st.ns[n].kind # "detach" /\ st.ns[st.ns[n].p].err # "none") => st.ns[n].err # "none"
DetachedLives == \A n \in DOMAIN st.ns : st.ns[n].kind = "detach" => st.ns[n].err = "none"
Forever == [][\A n \in DOMAIN st.ns : st.ns[n].err # "none" => st'.ns[n].err = st.ns[n].err /\ st'.ns[n].cause = st.ns[n].cause]_vars
SpanIds == \A n, m \in DOMAIN st.ns : (n # m /\ st.ns[n].kind = "track" /\ st.ns[m].kind = "track") => st.ns[n].id # st.ns[m].id
=============================================================================
