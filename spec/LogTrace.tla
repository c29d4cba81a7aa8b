------------------------------ MODULE LogTrace ------------------------------
(* Long random histories of deriving contexts and logging with them.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, ns, level
tvars == <<tr, i, ns, level>>
C == INSTANCE LogConf WITH MaxNodes <- 0, Levels <- {}, Args <- {}, st <- 0, act <- 0
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
TInit == ns = <<C!Root>> /\ level = 1 /\ tr \in 1..Len(Traces) /\ i = 1
IsK(x) == More /\ Ev.op = x
TNext == /\ i' = i + 1 /\ UNCHANGED tr
  /\ \/ IsK("tag") /\ ns' = C!Add(ns, Ev.p, "tag", Ev.key, C!Fresh(ns)) /\ UNCHANGED level
     \/ IsK("logger") /\ ns' = C!Add(ns, Ev.p, "logger", "", Ev.s) /\ UNCHANGED level
     \/ IsK("helper") /\ ns' = C!Add(ns, Ev.p, "helper", "", C!Fresh(ns)) /\ UNCHANGED level
     \/ IsK("level") /\ level' = Ev.l /\ UNCHANGED ns
     \/ IsK("log") /\ Ev.ret = C!Record(ns, level, Ev.n, Ev.lv, Ev.arg) /\ UNCHANGED <<ns, level>>
TSpec == TInit /\ [][TNext]_tvars
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
