------------------------------ MODULE EchoTrace ------------------------------
(* Timed histories of start requests and their observers, in microseconds.    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, s
E == INSTANCE Echo WITH Delay <- 5000000, Slack <- 4000000, Never <- 2000000000, End <- 0, Requests <- {}, now <- 0, req <- 0, begun <- 0, echo <- 0
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ s = E!Empty
TNext == /\ More /\ i' = i + 1 /\ UNCHANGED tr
         /\ CASE Ev.k = "begin" -> s' = E!Ask(s, Ev.at)
              [] Ev.k = "begun" -> s' = E!Answer(s, Ev.at)
              [] Ev.k = "see" -> E!MaySee(s, Ev.what, Ev.at) /\ UNCHANGED s
              \* recorded after it was looked at: the start may have come in between
              [] Ev.k = "miss" -> E!MayMiss(s, Ev.what, Ev.from) /\ UNCHANGED s
              [] Ev.k = "haw" -> UNCHANGED s
              [] Ev.k = "hawret" -> E!MaySee(s, "started", Ev.at) /\ UNCHANGED s
              [] OTHER -> FALSE /\ UNCHANGED s
TSpec == TInit /\ [][TNext]_<<tr, i, s>>
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
