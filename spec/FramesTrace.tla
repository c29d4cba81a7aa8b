---------------------------- MODULE FramesTrace ----------------------------
(* Stacks and programs which are larger than those enumerated.                 *)
EXTENDS Frames, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, sc
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ sc = Outside
TNext == /\ More /\ i' = i + 1 /\ UNCHANGED tr
         /\ CASE Ev.op = "stmt" -> sc' = Does(Ev.s, sc)
              [] Ev.op = "look" -> Ev.ret = Look(Ev.form, Ev.args, sc) /\ sc' = Outside
              [] Ev.op = "caller" -> Ev.ret = Caller(Ev.q, Ev.above) /\ UNCHANGED sc
              [] Ev.op = "stack" -> Ev.ret = Stack(Ev.q, Ev.above, Ev.max) /\ UNCHANGED sc
TSpec == TInit /\ [][TNext]_<<tr, i, sc>>
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
