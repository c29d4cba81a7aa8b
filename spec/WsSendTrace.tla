---------------------------- MODULE WsSendTrace -----------------------------
(* Concurrent senders and closers of one connection: what the client received  *)
(* (init.stream) is, in some order consistent with real time, what was sent.   *)
EXTENDS LinTrace
SInit(init) == [rest |-> init.stream, closed |-> FALSE]
SApply(st, op) ==
  CASE op.op = "send" -> IF st.closed THEN {[s |-> st, ret |-> "error"]}
                         ELSE IF st.rest # <<>> /\ Head(st.rest) = op.id THEN {[s |-> [st EXCEPT !.rest = Tail(@)], ret |-> "ok"]}
                         ELSE {}
    [] op.op = "close" -> IF st.closed THEN {[s |-> st, ret |-> r] : r \in {"ok", "error"}}
                          ELSE IF st.rest # <<>> /\ Head(st.rest) = "close" THEN {[s |-> [rest |-> Tail(st.rest), closed |-> TRUE], ret |-> r] : r \in {"ok", "error"}}
                          ELSE {}
    [] op.op = "eof" -> IF st.rest = <<>> /\ st.closed THEN {[s |-> st, ret |-> "ok"]} ELSE {}
=============================================================================
