------------------------------ MODULE LogConf ------------------------------
(* What a log call does (package ctx/log): trees of contexts which add tags, *)
(* loggers and helpers, and the one record a call makes.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxNodes, Levels, Args
VARIABLES st, act
vars == <<st, act>>
View == st

Root == [p |-> 0, kind |-> "root", k |-> "", v |-> ""]
RECURSIVE Near(_, _, _), Last(_, _, _)
\* value of the nearest node of a kind on the derivation path
Near(ns, n, kind) == IF n = 0 THEN "" ELSE IF ns[n].kind = kind THEN ns[n].v ELSE Near(ns, ns[n].p, kind)
Last(ns, n, k) == IF n = 0 THEN "" ELSE IF ns[n].kind = "tag" /\ ns[n].k = k THEN ns[n].v ELSE Last(ns, ns[n].p, k)
\* loggers: D1 and D2 share the default level as does the default one, S has a level of its own, F1 and F2 get everything
Sink(ns, n) == LET s == Near(ns, n, "logger") IN IF s = "" THEN "default" ELSE s
Threshold(s, level) == IF s = "S" THEN 2 ELSE IF s \in {"F1", "F2"} THEN 0 ELSE level
Structured(s) == s \notin {"F1", "F2"}

\* arguments: plain; secret (shown as ***); tagger (shown as T, sets tag a);
\* number (represents itself as 42), lerror (an error which represents itself as L);
\* error (listed under tag error); cerror (same, with its own context's tags)
Record(ns, level, n, lv, arg) == LET s == Sink(ns, n) IN
  IF lv < Threshold(s, level) THEN [sink |-> "none", helper |-> Near(ns, n, "helper"), lv |-> 0, shown |-> "", a |-> "", b |-> "", e |-> ""]
  ELSE [sink |-> s, helper |-> Near(ns, n, "helper"), lv |-> lv,
        shown |-> IF ~Structured(s) THEN "raw" ELSE CASE arg = "secret" -> "***" [] arg = "tagger" -> "T"
                   [] arg = "number" -> "00042" [] arg = "lerror" -> "L" [] OTHER -> arg,
        a |-> IF Structured(s) /\ arg = "tagger" THEN "tagged" ELSE Last(ns, n, "a"),
        b |-> Last(ns, n, "b"),
        e |-> IF Structured(s) /\ arg \in {"error", "cerror"} THEN arg ELSE Last(ns, n, "error")]

Init == \E l \in Levels : st = [ns |-> <<Root>>, level |-> l] /\ act = [op |-> "init"]
Add(ns, p, kind, k, v) == Append(ns, [p |-> p, kind |-> kind, k |-> k, v |-> v])
Fresh(ns) == "v" \o ToString(Len(ns) + 1)
Derive == \E p \in DOMAIN st.ns : Len(st.ns) < MaxNodes /\
  \/ \E k \in {"a", "b", "error"} : st' = [st EXCEPT !.ns = Add(@, p, "tag", k, Fresh(@))] /\ act' = [op |-> "tag", p |-> p, k |-> k, ret |-> "ok"]
  \/ \E s \in {"D1", "D2", "S", "F1", "F2"} : st' = [st EXCEPT !.ns = Add(@, p, "logger", "", s)] /\ act' = [op |-> "logger", p |-> p, s |-> s, ret |-> "ok"]
  \/ st' = [st EXCEPT !.ns = Add(@, p, "helper", "", Fresh(@))] /\ act' = [op |-> "helper", p |-> p, ret |-> "ok"]
SetLevel == \E l \in Levels : l # st.level /\ st' = [st EXCEPT !.level = l] /\ act' = [op |-> "level", l |-> l, ret |-> "ok"]
Log == \E n \in DOMAIN st.ns, lv \in 0..5, arg \in Args :
  UNCHANGED st /\ act' = [op |-> "log", n |-> n, lv |-> lv, arg |-> arg, ret |-> Record(st.ns, st.level, n, lv, arg)]
Next == Derive \/ SetLevel \/ Log
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> st, t |-> st', a |-> act', l |-> TLCGet("level")]))
\* deriving changes nothing of what was there
Immutable == [][st'.level = st.level => \A n \in DOMAIN st.ns, lv \in 0..5, a \in Args :
                 Record(st'.ns, st.level, n, lv, a) = Record(st.ns, st.level, n, lv, a)]_st
Secret == [][act'.op = "log" /\ act'.arg = "secret" => act'.ret.shown \in {"***", "raw", ""}]_vars
=============================================================================
