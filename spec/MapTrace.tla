------------------------------ MODULE MapTrace ------------------------------
(* Concurrent histories of the map and the set. An iteration is not atomic:   *)
(* it is recorded as "rbegin" before it starts and "rend" after it ended, with *)
(* what it visited. must: the keys present ever since it began; held: all the  *)
(* pairs which were present at some time since.                               *)
EXTENDS LinTrace, SequencesExt
M == INSTANCE Map WITH KeySet <- {}, Vals <- {}, st <- s, act <- 0
MapInit(init) == [m |-> Empty, r |-> Empty]
Follow(r, m, m2) == [x \in DOMAIN r |-> [must |-> r[x].must \cap DOMAIN m \cap DOMAIN m2, held |-> r[x].held \cup M!Pairs(m2)]]
SeenOk(r, op) ==
  LET ks == [n \in DOMAIN op.seen |-> op.seen[n].k] IN
  /\ \A a, b \in DOMAIN ks : ks[a] = ks[b] => a = b
  /\ \A n \in DOMAIN op.seen : <<op.seen[n].k, op.seen[n].v>> \in r.held
  \* stopped: the callback answered so after the last one
  /\ IF op.stopped THEN Len(op.seen) = op.limit ELSE r.must \subseteq ToSet(ks) /\ (op.limit = 0 \/ Len(op.seen) < op.limit)
EmptyOk(r, op) == IF op.empty THEN r.must = {} ELSE r.held # {}
MapApply(st, op) ==
  CASE op.op = "rbegin" -> {[s |-> [st EXCEPT !.r = (op.id :> [must |-> DOMAIN st.m, held |-> M!Pairs(st.m)]) @@ @], ret |-> "ok"]}
    [] op.op = "rend" -> IF (IF "empty" \in DOMAIN op THEN EmptyOk(st.r[op.id], op) ELSE SeenOk(st.r[op.id], op)) THEN {[s |-> [st EXCEPT !.r = [x \in DOMAIN @ \ {op.id} |-> @[x]]], ret |-> "ok"]} ELSE {}
    [] OTHER -> LET o == M!Outcome(st.m, op) IN {[s |-> [m |-> o.s, r |-> Follow(st.r, st.m, o.s)], ret |-> o.ret]}
=============================================================================
