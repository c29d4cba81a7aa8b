----------------------------- MODULE SchemaTrace ----------------------------
(* Types of any shape with values as they were sent: the schema is the one of  *)
(* the type, and the values fit the schema of the document.                    *)
EXTENDS Schema, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
TInit == tr \in 1..Len(Traces) /\ i = 1
TNext == /\ More /\ i' = i + 1 /\ UNCHANGED tr
         /\ IF ~CanBeSent(Ev.t) THEN Ev.ok = <<>>
            ELSE /\ Ev.ok = <<Shape(Ev.t, "", "")>>
                 /\ Reach(Ev.t) \subseteq DOMAIN Ev.defs
                 /\ \A n \in DOMAIN Ev.vals : Fits(Ev.vals[n], Ev.ok[1], Ev.defs)
                 /\ \A n \in DOMAIN Ev.full : Fits(Ev.full[n], Ev.ok[1], Ev.defs) /\ Complete(Ev.full[n], Ev.ok[1], Ev.defs, 3)
TSpec == TInit /\ [][TNext]_<<tr, i>>
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
