---------------------------- MODULE BufferedTrace ----------------------------
(* Histories of the buffered stream, in batches, as in PipeTrace.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, s
tvars == <<tr, i, s>>
B == INSTANCE Buffered WITH MaxOps <- 0, got <- 0
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ s = B!Empty
Step == i' = i + 1 /\ UNCHANGED tr
TNext == More /\
  \/ Ev.k = "start" /\ s' = B!Start(s, Ev.kind, Ev.n, Ev.b) /\ Step
  \/ Ev.k = "quiet" /\ ~B!Busy(s) /\ Ev.res = [id \in DOMAIN s.ops |-> s.ops[id].res]
     /\ Ev.written = s.written /\ Ev.hasread = (s.q # <<>>) /\ Ev.closed = s.closed /\ UNCHANGED s /\ Step
  \/ \E id \in B!Pending(s) : \E t \in B!Commit(s, id) :
       /\ \A n \in i..Len(Traces[tr].ev) : (Traces[tr].ev[n].k = "quiet" /\ \A m \in i..n - 1 : Traces[tr].ev[m].k # "quiet") =>
            t.ops[id].res = Traces[tr].ev[n].res[id]
       /\ s' = t /\ UNCHANGED <<tr, i>>
TSpec == TInit /\ [][TNext]_tvars
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
