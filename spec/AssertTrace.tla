---------------------------- MODULE AssertTrace ----------------------------
(* Assertions on larger values than those enumerated.                          *)
EXTENDS Assertions, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
TInit == tr \in 1..Len(Traces) /\ i = 1
TNext == /\ More /\ i' = i + 1 /\ UNCHANGED tr
         /\ CASE Ev.op = "check" -> Judged(Ev.h, Ev.a, Ev.b) => Ev.ret = Outcome(Holds(Ev.h, Ev.a, Ev.b))
              [] Ev.op \in {"Shift", "Pop"} -> /\ Ev.ret = IF Ev.l = <<>> THEN [out |-> "stop", x |-> 0] ELSE [out |-> "go", x |-> Taken(Ev.op, Ev.l)]
                                               /\ Ev.after = Left(Ev.op, Ev.l)
TSpec == TInit /\ [][TNext]_<<tr, i>>
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
