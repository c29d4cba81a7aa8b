----------------------------- MODULE ReadAllTrace -----------------------------
(* One call per history: init is the script and the end of the context; the   *)
(* result must be one the specification allows, at the same time.             *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, s
tvars == <<tr, i, s>>
R == INSTANCE ReadAll WITH Sizes <- {}, MaxTime <- 0, MaxChunks <- 0
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ s = R!Start(Traces[tr].init.script, Traces[tr].init.ctxEnd)
TNext == More /\ UNCHANGED tr /\
  \/ R!CanDeliver(s) /\ s' = R!Deliver(s) /\ UNCHANGED i
  \/ R!CanReturn(s) /\ s' = R!Return(s) /\ UNCHANGED i
  \/ R!CanCancel(s) /\ (Ev.err = "ctx" /\ Ev.n <= s.out) /\ s' = R!Ret(s, Ev.n, "ctx") /\ UNCHANGED i
  \/ R!CanTick(s) /\ s' = R!Tick(s) /\ UNCHANGED i
  \/ s.ret # <<>> /\ Ev.n = s.ret[1].n /\ Ev.err = s.ret[1].err /\ Ev.at = s.ret[1].at /\ Ev.closes = 1 /\ i' = i + 1 /\ UNCHANGED s
TSpec == TInit /\ [][TNext]_tvars
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
