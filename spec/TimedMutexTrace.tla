--------------------------- MODULE TimedMutexTrace ---------------------------
EXTENDS TimedMutex, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
tvars == <<mvars, tr, i>>
Ev == Traces[tr].ev[i]
Sl == Traces[tr].init.slack
More == i <= Len(Traces[tr].ev)
TInit == MInit0 /\ tr \in 1..Len(Traces) /\ i = 1
Step == i' = i + 1 /\ UNCHANGED tr
IsK(x) == More /\ Ev.k = x
TNext ==
  \/ IsK("try") /\ Try(Ev.t, Ev.limit, Ev.at, Sl) /\ Step
  \/ IsK("got") /\ Got(Ev.t, Ev.at, Sl) /\ Step
  \/ IsK("fail") /\ Fail(Ev.t, Ev.at, Sl) /\ Step
  \/ IsK("unlock") /\ Unlock(Ev.t, Ev.at, Sl) /\ Step
  \/ IsK("unlocked") /\ Unlocked(Ev.t, Ev.at, Sl) /\ Step
  \* as late as possible: only if the next event needs it
  \/ More /\ \E t \in DOMAIN wait : Acquire(t) /\ UNCHANGED <<tr, i>>
  \/ More /\ \E t \in rel : Release(t) /\ UNCHANGED <<tr, i>>
TSpec == TInit /\ [][TNext]_tvars
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
