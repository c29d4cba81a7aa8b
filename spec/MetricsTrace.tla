---------------------------- MODULE MetricsTrace ----------------------------
(* Concurrent updates and scrapes. A scrape shows for every series a state it *)
(* had between its begin and its end (it may not be one moment for all). A new *)
(* series may show up before its first update counts. touched: the series for *)
(* which an update was started.                                               *)
EXTENDS LinTrace
M == INSTANCE Metrics WITH Vals <- {}, MaxOps <- 0, st <- s, act <- 0
MInit(init) == [x |-> [k \in {init.keys[n] : n \in DOMAIN init.keys} |-> M!Off(init.les)], les |-> init.les, r |-> Empty, touched |-> {}]
ShownOk(st, held, k, shown) ==
  \/ shown \in held
  \/ k # "f" /\ k \in st.touched /\ M!Off(st.les) \in held /\ shown = M!Fresh(st.les)
MApply(st, op) ==
  CASE op.op = "touch" -> {[s |-> [st EXCEPT !.touched = @ \cup {op.key}], ret |-> "ok"]}
    [] op.op = "rbegin" -> {[s |-> [st EXCEPT !.r = (op.id :> [k \in DOMAIN st.x |-> {st.x[k]}]) @@ @], ret |-> "ok"]}
    [] op.op = "rend" -> IF \A k \in DOMAIN st.x : ShownOk(st, st.r[op.id][k], k, op.seen[k])
                         THEN {[s |-> [st EXCEPT !.r = [x \in DOMAIN @ \ {op.id} |-> @[x]]], ret |-> "ok"]} ELSE {}
    [] OTHER -> LET y == M!Upd(st.x[op.k], op, st.les) IN
         {[s |-> [st EXCEPT !.x[op.k] = y, !.r = [id \in DOMAIN @ |-> [@[id] EXCEPT ![op.k] = @ \cup {y}]]], ret |-> "ok"]}
=============================================================================
