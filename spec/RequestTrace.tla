---------------------------- MODULE RequestTrace ----------------------------
(* Recorded runs of the request cache in virtual time. init: cap, slack (how  *)
(* late the clock may be read, 0 when nothing but fetches takes time), strict.*)
EXTENDS RequestCache, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
tvars == <<rvars, tr, i>>
Cfg == Traces[tr].init
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
TInit == RInit /\ tr \in 1..Len(Traces) /\ i = 1
Step == i' = i + 1 /\ UNCHANGED tr
IsK(x) == More /\ Ev.k = x
TNext ==
  \/ IsK("req") /\ Begin(Ev.t, Ev.key, Ev.at) /\ Step
  \/ IsK("fs") /\ FetchStart(Ev.t, Ev.key, Ev.at) /\ (Cfg.strict => Prompt(Ev.t, Ev.at)) /\ Step
  \/ IsK("fe") /\ FetchEnd(Ev.t, Ev.v, Ev.err, Ev.ttl, Ev.at) /\ Step
  \/ IsK("res") /\ End(Ev.t, Ev.at) /\ th[Ev.t].ret = Ev.ret /\ (Cfg.strict => Prompt(Ev.t, Ev.at)) /\ Step
  \/ IsK("inv") /\ BeginInv(Ev.t, Ev.key, Ev.at) /\ Step
  \/ IsK("invres") /\ End(Ev.t, Ev.at) /\ th[Ev.t].ret = InvOk /\ (Cfg.strict => Ev.at = th[Ev.t].since) /\ Step
  \/ \E t \in DOMAIN th : (Lookup(t, Cfg.cap) \/ Hit(t, Cfg.slack) \/ DoInv(t)) /\ UNCHANGED <<tr, i>>
TSpec == TInit /\ [][TNext]_tvars
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
