----------------------------- MODULE ReqCtxTrace -----------------------------
(* Many clients of one server at a time.                                      *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, busy
C == INSTANCE ReqCtx WITH Clients <- {}, Uas <- {}, Paths <- {}, st <- 0, act <- 0
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ busy = {}
TNext == /\ More /\ i' = i + 1 /\ UNCHANGED tr
         /\ CASE Ev.op = "start" -> Ev.c \notin busy /\ Ev.ret = C!Tags(Ev.c, Ev.ua, Ev.path) /\ busy' = busy \cup {Ev.c}
              [] Ev.op = "look" -> Ev.c \in busy /\ Ev.ret = "on" /\ Ev.tags = C!Tags(Ev.c, Ev.ua, Ev.path) /\ UNCHANGED busy
              [] Ev.op \in {"finish", "drop"} -> Ev.c \in busy /\ Ev.ret = "over" /\ busy' = busy \ {Ev.c}
TSpec == TInit /\ [][TNext]_<<tr, i, busy>>
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
