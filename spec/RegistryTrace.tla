---------------------------- MODULE RegistryTrace ----------------------------
(* Concurrent registrations and scrapes. must: registered before the scrape;   *)
(* may: registered before its end.                                             *)
EXTENDS LinTrace, SequencesExt
R == INSTANCE Registry WITH NameSet <- {}, Ids <- {}, st <- s, act <- 0
RInit(init) == [m |-> Empty, r |-> Empty]
RApply(st, op) ==
  CASE op.op = "reg" -> LET o == R!RegOutcome(st.m, op.k, op.v) IN {[s |-> [st EXCEPT !.m = o.s], ret |-> o.ret]}
    [] op.op = "rbegin" -> {[s |-> [st EXCEPT !.r = (op.id :> DOMAIN st.m) @@ @], ret |-> "ok"]}
    [] op.op = "rend" -> LET ks == [n \in DOMAIN op.seen |-> op.seen[n].k] IN
         IF /\ \A a, b \in DOMAIN ks : ks[a] = ks[b] => a = b
            /\ st.r[op.id] \subseteq ToSet(ks)
            /\ \A n \in DOMAIN op.seen : op.seen[n].k \in DOMAIN st.m /\ st.m[op.seen[n].k] = op.seen[n].v
         THEN {[s |-> st, ret |-> "ok"]} ELSE {}
=============================================================================
