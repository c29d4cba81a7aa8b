----------------------------- MODULE ConfigTrace -----------------------------
(* Structures with several fields.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
tvars == <<tr, i>>
C == INSTANCE Config WITH Texts <- {}, Defaults <- {}, st <- 0, act <- 0
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
TInit == tr \in 1..Len(Traces) /\ i = 1
TNext == More /\ C!Load(Ev.fields, Ev.lookups) = Ev.ret /\ i' = i + 1 /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_tvars
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
