---------------------------- MODULE MeasureTrace ----------------------------
(* The counts seen while requests are served: never more than the requests     *)
(* which were begun, never less than before, and exactly those which were      *)
(* served when all is quiet. Keys are method, path and status.                 *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, begun, seen
M == INSTANCE Measure WITH Finals <- {}, Readies <- {}, Methods <- {}, MaxLen <- 0, Long <- 0, st <- 0, act <- 0
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
Empty == [x \in {} |-> 0]
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ begun = Empty /\ seen = Empty
Code(e) == IF e.kind = "serve" THEN M!Sent(e.beh) ELSE IF e.kind = "function" THEN M!Answer(e.out) ELSE e.code
Key(e) == <<e.method, e.path, Code(e)>>
Counts == [k \in {<<c.method, c.path, c.code>> : c \in {Ev.counts[n] : n \in DOMAIN Ev.counts}} |->
             (CHOOSE c \in {Ev.counts[n] : n \in DOMAIN Ev.counts} : <<c.method, c.path, c.code>> = k).n]
TNext == /\ More /\ i' = i + 1 /\ UNCHANGED tr
         /\ CASE Ev.e = "begin" -> begun' = (Key(Ev) :> At(begun, Key(Ev)) + 1) @@ begun /\ UNCHANGED seen
              [] Ev.e = "end" -> Ev.status = Code(Ev) /\ UNCHANGED <<begun, seen>>
              [] Ev.e = "scrape" -> /\ \A k \in DOMAIN seen : At(Counts, k) >= seen[k]
                                    /\ \A k \in DOMAIN Counts : Counts[k] <= At(begun, k)
                                    /\ seen' = Counts /\ UNCHANGED begun
              [] Ev.e = "quiet" -> Counts = begun /\ UNCHANGED <<begun, seen>>
TSpec == TInit /\ [][TNext]_<<tr, i, begun, seen>>
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
