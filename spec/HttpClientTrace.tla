--------------------------- MODULE HttpClientTrace ---------------------------
(* Calls of one client at the same time, each with its own answer.            *)
EXTENDS HttpClient, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
TInit == tr \in 1..Len(Traces) /\ i = 1
TNext == /\ More /\ i' = i + 1 /\ UNCHANGED tr
         /\ IF Ev.op = "end" THEN Ev.open = 0
            ELSE /\ Sensible(Ev.op, Ev.plan, Ev.cx)
                 /\ Ev.ret.res = Result(Ev.op, Ev.plan, Ev.cx)
                 /\ Seen(Ev.op, Ev.plan, Ev.cx) \in {"any", Ev.ret.seen}
TSpec == TInit /\ [][TNext]_<<tr, i>>
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
