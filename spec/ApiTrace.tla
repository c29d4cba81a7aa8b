------------------------------ MODULE ApiTrace ------------------------------
(* Objects of several fields, sent from a client to a server and back.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
A == INSTANCE Api WITH Types <- {}, Ids <- {}, st <- 0, act <- 0
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
SetOf(s) == {s[n] : n \in DOMAIN s}
Same(s, m) == SetOf(s) = m /\ Len(s) = Cardinality(m)
TInit == tr \in 1..Len(Traces) /\ i = 1
TNext == /\ More /\ i' = i + 1 /\ UNCHANGED tr
         /\ LET fs == Traces[tr].init.fields IN
            CASE Ev.op = "register" -> A!Registrable(fs) = Ev.ret
              [] Ev.op = "recv" -> A!IsRecv(fs, Ev.wire, Ev.id, Ev.ret)
              [] Ev.op = "send" -> Same(Ev.ret, A!Message(fs, Ev.vals, Ev.dir))
              [] Ev.op = "back" -> IF A!Fails(fs, Ev.wire) THEN ~Ev.ret.ok ELSE Ev.ret = [ok |-> TRUE, vals |-> A!Back(fs, Ev.vals, Ev.wire)]
TSpec == TInit /\ [][TNext]_<<tr, i>>
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
