------------------------------ MODULE CtxTrace ------------------------------
(* Long random histories of one tree of contexts, with deadlines, in virtual  *)
(* time. Deterministic: every look must show what the model shows.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, ns
tvars == <<tr, i, ns>>
C == INSTANCE CtxTree WITH MaxNodes <- 0, MaxCancels <- 0, st <- ns, act <- 0
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
TInit == ns = <<C!Root>> /\ tr \in 1..Len(Traces) /\ i = 1
Step == i' = i + 1 /\ UNCHANGED tr
IsK(x) == More /\ Ev.k = x
TNext ==
  \/ IsK("derive") /\ ns' = C!Derive(C!Expire(ns, 1, Ev.at), Ev.p, Ev.kind, Ev.key, Ev.v, Ev.id, Ev.dead, Ev.at) /\ Step
  \/ IsK("span") /\ ns' = C!Span(C!Expire(ns, 1, Ev.at), Ev.p, Ev.at) /\ Step
  \/ IsK("cancel") /\ ns' = C!Cancel(C!Expire(ns, 1, Ev.at), Ev.n, "canceled", Ev.cause) /\ Step
  \/ IsK("look") /\ ns' = C!Expire(ns, 1, Ev.at) /\ C!Look(ns', Ev.n) = Ev.got /\ Step
TSpec == TInit /\ [][TNext]_tvars
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
