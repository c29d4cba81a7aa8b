---------------------------- MODULE MonitorTrace ----------------------------
(* Goroutines start and end, and a metric counts, while the endpoints are read.*)
EXTENDS LinTrace
M == INSTANCE Monitor WITH MaxWork <- 0, MaxN <- 0, st <- s, act <- 0
MInit(init) == [m |-> {"/metrics"}, p |-> {"/debug", "/x/y"}, work |-> 0, n |-> 0]
MApply(m, op) ==
  CASE op.op = "spawn" -> {[s |-> [m EXCEPT !.work = @ + 1], ret |-> "ok"]}
    [] op.op = "stop" -> IF m.work = 0 THEN {} ELSE {[s |-> [m EXCEPT !.work = @ - 1], ret |-> "ok"]}
    [] op.op = "count" -> {[s |-> [m EXCEPT !.n = @ + 1], ret |-> "ok"]}
    [] op.op = "scrape" -> {[s |-> m, ret |-> M!Metrics(m, op.path)]}
    [] op.op = "get" -> {[s |-> m, ret |-> M!Page(m, op.prefix, op.page)]}
=============================================================================
