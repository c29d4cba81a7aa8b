---------------------------- MODULE ApiStateTrace ----------------------------
(* Concurrent requests over the network: each answers as if it was executed    *)
(* alone, but for the shared counter.                                          *)
EXTENDS LinTrace
A == INSTANCE ApiState WITH Reqs <- {}, Max <- 0, st <- s, act <- 0
AInit(init) == 0
\* op: wire, fails; the answer tells what the operation found when it started, and at its end
AApply(st, op) ==
  IF ~A!Accepted(op.wire) THEN {[s |-> st, ret |-> [status |-> 400]]}
  ELSE IF op.fails THEN {[s |-> st + 1, ret |-> [status |-> 409, start |-> A!Object(op.wire, "absent", "reg"), kept |-> TRUE]]}
  ELSE {[s |-> st + 1, ret |-> [status |-> 200, start |-> A!Object(op.wire, "absent", "reg"), kept |-> TRUE, shared |-> st + 1, out |-> op.token, both |-> op.token]]}
=============================================================================
