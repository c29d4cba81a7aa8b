------------------------------ MODULE ErrTrace ------------------------------
(* Long random histories of errors: what is seen of the new error, and of one *)
(* of the older ones, must be what ErrChain shows.                            *)
EXTENDS ErrChain, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
tvars == <<es, act, tr, i>>
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
TInit == Init /\ tr \in 1..Len(Traces) /\ i = 1
TNext == /\ More /\ es' = Append(es, Make(es, Ev.op, Ev.p, Ev.q)) /\ UNCHANGED <<act, tr>>
         /\ Ev.obs = Look(es', Len(es')) /\ Ev.old = Look(es', Ev.n)
         /\ i' = i + 1
TSpec == TInit /\ [][TNext]_tvars
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
TView == <<es, tr, i>>
=============================================================================
