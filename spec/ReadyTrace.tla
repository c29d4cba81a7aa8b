----------------------------- MODULE ReadyTrace -----------------------------
(* The readiness probe answers the code which was set last (a register).       *)
EXTENDS LinTrace
RInit(init) == 204
RApply(st, op) == CASE op.op = "set" -> {[s |-> op.c, ret |-> 0]}
                    [] op.op = "ready" -> {[s |-> st, ret |-> st]}
                    [] op.op = "live" -> {[s |-> st, ret |-> 204]}
=============================================================================
