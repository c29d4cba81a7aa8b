--------------------------- MODULE JsonTextTrace ---------------------------
(* Texts decoded, trees encoded, and values which may have no text at all.    *)
EXTENDS JsonText, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
TInit == tr \in 1..Len(Traces) /\ i = 1
TNext == /\ More /\ i' = i + 1 /\ UNCHANGED tr
         /\ CASE Ev.op = "decode" -> Ev.ret = Denotes(Ev.text)
              [] Ev.op = "encode" -> Denotes(Ev.text) = [is |-> "node", n |-> Ev.n]
              [] Ev.op = "fields" -> /\ Denotes(Ev.text) = [is |-> "node", n |-> Ev.n]
                                     /\ LET q == Step(Read(Start, SubSeq(Ev.text, 1, Len(Ev.text) - 1)), 32) IN q.up[1].ks = Ev.names   \* in order of declaration
              [] Ev.op = "unfit" -> Ev.ret = IF Ev.fit THEN "text" ELSE "error"
TSpec == TInit /\ [][TNext]_<<tr, i>>
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
