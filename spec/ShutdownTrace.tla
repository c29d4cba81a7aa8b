---------------------------- MODULE ShutdownTrace ----------------------------
(* Concurrent histories of holds and waits for completion: a wait returns at a *)
(* moment when nothing is held.                                                *)
EXTENDS LinTrace
SInit(init) == {}
SApply(h, op) ==
  CASE op.op = "hold" -> {[s |-> h \cup {op.id}, ret |-> "ok"]}
    [] op.op = "release" -> {[s |-> h \ {op.id}, ret |-> "ok"]}
    [] op.op = "await" -> IF h = {} THEN {[s |-> h, ret |-> "ok"]} ELSE {}
=============================================================================
