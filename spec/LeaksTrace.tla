----------------------------- MODULE LeaksTrace -----------------------------
(* Many things at a time, of every kind: what each of them does is what its   *)
(* kind allows, and once all of them are over nothing is left.                *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, at
C == INSTANCE Leaks WITH MaxLive <- 0, st <- 0, act <- 0
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
Phase(t) == IF t \in DOMAIN at THEN at[t] ELSE ""
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ at = <<>>
TNext == /\ More /\ i' = i + 1 /\ UNCHANGED tr
         /\ CASE Ev.op = "do" -> \E s \in C!Steps[Ev.k] : /\ s.p = Phase(Ev.t) /\ s.do = Ev.do /\ s.ret = Ev.ret
                                                           /\ at' = [t \in DOMAIN at \cup {Ev.t} |-> IF t = Ev.t THEN s.q ELSE at[t]]
              [] Ev.op = "look" -> (\A t \in DOMAIN at : at[t] = "") /\ Ev.obs = "idle" /\ at' = <<>>
TSpec == TInit /\ [][TNext]_<<tr, i, at>>
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
