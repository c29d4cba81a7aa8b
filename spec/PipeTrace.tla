------------------------------ MODULE PipeTrace ------------------------------
(* Histories of a pipe: operations start in batches, each batch ends when      *)
(* nothing moves any more ("quiet"), with the results so far.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, s
tvars == <<tr, i, s>>
P == INSTANCE Pipe WITH MaxOps <- 0, Caps <- {}
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ s = P!Empty(Traces[tr].init.cap)
Step == i' = i + 1 /\ UNCHANGED tr
TNext == More /\
  \/ Ev.k = "start" /\ s' = P!Start(s, Ev.id, Ev.kind, Ev.d, Ev.v) /\ Step
  \/ Ev.k = "cancel" /\ s' = P!CancelOp(s, Ev.id) /\ Step
  \/ Ev.k = "quiet" /\ ~P!Busy(s) /\ Ev.res = [id \in DOMAIN s.ops |-> s.ops[id].res] /\ UNCHANGED s /\ Step
  \/ \* only towards what was recorded
     \E id \in P!Pending(s) : \E t \in P!Commit(s, id) \cup P!May(s, id) :
       /\ \A n \in i..Len(Traces[tr].ev) : (Traces[tr].ev[n].k = "quiet" /\ \A m \in i..n - 1 : Traces[tr].ev[m].k # "quiet") =>
            \A x \in DOMAIN s.ops : (t.ops[x].res # s.ops[x].res) => t.ops[x].res = Traces[tr].ev[n].res[x]
       /\ s' = t /\ UNCHANGED <<tr, i>>
TSpec == TInit /\ [][TNext]_tvars
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
