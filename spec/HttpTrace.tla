------------------------------ MODULE HttpTrace ------------------------------
(* Requests of many clients, each answered as the specification says.         *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
H == INSTANCE Http WITH Sizes <- {}, Codes <- {}, Kinds <- {}, st <- 0, act <- 0
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
TInit == tr \in 1..Len(Traces) /\ i = 1
TNext == /\ More /\ i' = i + 1 /\ UNCHANGED tr
         /\ CASE Ev.op = "request" -> Ev.ret \in H!Request(Ev.out, Ev.enc)
              [] Ev.op = "api" -> Ev.ret = H!Api(Ev.body, Ev.out)
TSpec == TInit /\ [][TNext]_<<tr, i>>
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
