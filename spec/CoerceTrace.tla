---------------------------- MODULE CoerceTrace ----------------------------
(* Conversions of nodes and values which are larger than those enumerated.     *)
EXTENDS Coerce, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
Keys(f) == {x \in DOMAIN f : TRUE}
\* terms are equal: what they are first
RECURSIVE SameN(_, _)
SameN(a, b) == /\ a.k = b.k /\ DOMAIN a = DOMAIN b
               /\ CASE a.k = "list" -> Len(a.xs) = Len(b.xs) /\ \A n \in DOMAIN a.xs : SameN(a.xs[n], b.xs[n])
                    [] a.k = "pairs" -> a.ks = b.ks /\ \A n \in DOMAIN a.xs : SameN(a.xs[n], b.xs[n])
                    [] a.k = "map" -> LET fa == Fn(a.ks, a.xs) fb == Fn(b.ks, b.xs) IN DOMAIN fa = DOMAIN fb /\ \A x \in DOMAIN fa : SameN(fa[x], fb[x])
                    [] a.k \in {"nil", "gonil"} -> TRUE
                    [] OTHER -> a.s = b.s
RECURSIVE SameJ(_, _)
SameJ(a, b) == /\ a.j = b.j
               /\ CASE a.j = "l" -> Len(a.xs) = Len(b.xs) /\ \A n \in DOMAIN a.xs : SameJ(a.xs[n], b.xs[n])
                    [] a.j = "o" -> DOMAIN a.fs = DOMAIN b.fs /\ \A x \in DOMAIN a.fs : SameJ(a.fs[x], b.fs[x])
                    [] a.j = "null" -> TRUE
                    [] OTHER -> a.s = b.s
RECURSIVE SameV(_, _)
SameV(a, b) == /\ a.t = b.t
               /\ CASE a.t \in {"p", "any"} -> SameV(a.v, b.v)
                    [] a.t \in {"l", "o"} -> Len(a.v) = Len(b.v) /\ \A n \in DOMAIN a.v : SameV(a.v[n], b.v[n])
                    [] a.t = "m" -> DOMAIN a.v = DOMAIN b.v /\ \A x \in DOMAIN a.v : SameV(a.v[x], b.v[x])
                    [] a.t = "node" -> SameN(a.v, b.v)
                    [] a.t = "raw" -> SameJ(a.v, b.v)
                    [] a.t = "nil" -> TRUE
                    [] OTHER -> a.v = b.v
IsDecode(r, ret) == IF r.ok = "free" THEN ret.ok \in {"yes", "no"}
                    ELSE /\ r.ok = ret.ok
                         /\ r.ok = "yes" => SameV(r.v, ret.v) /\ ("unknown" \in DOMAIN r => "unknown" \in DOMAIN ret /\ r.unknown = ret.unknown)
IsEncode(t, v, ret) == /\ DOMAIN ret = {"json", "direct", "text"}
                       /\ SameJ(Enc(t, v), ret.json) /\ SameV(Back(t, v), ret.direct) /\ SameV(Back(t, v), ret.text)
TInit == tr \in 1..Len(Traces) /\ i = 1
TNext == /\ More /\ i' = i + 1 /\ UNCHANGED tr
         /\ IF Ev.op = "dec" THEN IsDecode(Decode(Ev.n, Ev.t, Ev.o, Ev.h), Ev.ret)
            ELSE IF Ev.op = "as" THEN As(Ev.n, Ev.what, Ev.arg).ok = "free" \/ IsDecode(As(Ev.n, Ev.what, Ev.arg), Ev.ret) ELSE IsEncode(Ev.t, Ev.v, Ev.ret)
TSpec == TInit /\ [][TNext]_<<tr, i>>
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
