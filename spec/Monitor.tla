------------------------------ MODULE Monitor ------------------------------
(* The monitoring endpoints of the HTTP server (http/monitor.go): the metrics, *)
(* where they were set up; the goroutines and the profiles, below every prefix *)
(* they were set up for. They tell what the process is doing now.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxWork, MaxN
Prefixes == {"", "/debug", "/x/y"}
MetricPaths == {"/metrics", "/m"}
\* the profiles there are, by the kind of text they are
Kind == [p \in {"goroutine", "heap", "allocs", "threadcreate", "block", "mutex"} |->
          CASE p = "goroutine" -> "dump" [] p \in {"heap", "allocs"} -> "heap" [] p = "threadcreate" -> "threads" [] p = "block" -> "contention" [] p = "mutex" -> "mutexes"]
Pages == {"goroutines", "index", "cmdline", "symbol", "nosuch", "none"} \cup DOMAIN Kind

VARIABLES st, act
vars == <<st, act>>
View == st
Init == st = [m |-> {}, p |-> {}, work |-> 0, n |-> 0] /\ act = [op |-> "init"]
Found(kind, n) == [kind |-> kind, n |-> n]
Missing == Found("missing", 0)
Metrics(s, path) == IF path \in s.m THEN Found("metrics", s.n) ELSE Missing
Page(s, prefix, page) ==
    IF prefix \notin s.p THEN Missing
    ELSE CASE page \in {"nosuch", "none"} -> Missing
           [] page = "goroutines" -> Found("dump", s.work)
           [] page \in DOMAIN Kind -> Found(Kind[page], IF page = "goroutine" THEN s.work ELSE 0)
           [] OTHER -> Found(page, 0)
\* an empty path is the usual one
SetupMetrics(path) == /\ path \notin st.m /\ st' = [st EXCEPT !.m = @ \cup {path}]
                      /\ \E arg \in {path} \cup (IF path = "/metrics" THEN {""} ELSE {}) : act' = [op |-> "metrics", path |-> arg, ret |-> "ok"]
SetupPages(prefix) == prefix \notin st.p /\ st' = [st EXCEPT !.p = @ \cup {prefix}] /\ act' = [op |-> "pages", prefix |-> prefix, ret |-> "ok"]
Spawn == st.work < MaxWork /\ st' = [st EXCEPT !.work = @ + 1] /\ act' = [op |-> "spawn", ret |-> "ok"]
Stop == st.work > 0 /\ st' = [st EXCEPT !.work = @ - 1] /\ act' = [op |-> "stop", ret |-> "ok"]
Count == st.n < MaxN /\ st' = [st EXCEPT !.n = @ + 1] /\ act' = [op |-> "count", ret |-> "ok"]
Scrape(path) == UNCHANGED st /\ act' = [op |-> "scrape", path |-> path, ret |-> Metrics(st, path)]
Get(prefix, page) == UNCHANGED st /\ act' = [op |-> "get", prefix |-> prefix, page |-> page, ret |-> Page(st, prefix, page)]
Next == \/ \E p \in MetricPaths : SetupMetrics(p) \/ Scrape(p)
        \/ \E p \in Prefixes : SetupPages(p) \/ \E g \in Pages : Get(p, g)
        \/ Spawn \/ Stop \/ Count
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> st, t |-> st', a |-> act', l |-> TLCGet("level")]))
\* looking changes nothing, and what is not set up is not there
Looks == [][act'.op \in {"scrape", "get"} => st' = st]_vars
Apart == [][act'.op = "get" => (act'.ret = Missing <=> (act'.prefix \notin st.p \/ act'.page \in {"nosuch", "none"}))]_vars
\* below every prefix it is the same
Same == [][act'.op = "get" => \A q \in st.p : act'.prefix \in st.p => Page(st, q, act'.page) = act'.ret]_vars
=============================================================================
