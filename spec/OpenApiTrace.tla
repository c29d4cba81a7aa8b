----------------------------- MODULE OpenApiTrace -----------------------------
(* The document after each registration of a sequence.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, doc
O == INSTANCE OpenApi WITH Paths <- {}, Max <- 0, st <- 0, act <- 0
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
SetOf(s) == {s[n] : n \in DOMAIN s}
Set(s, m) == SetOf(s) = m /\ Len(s) = Cardinality(m)
Is(e, x) == e.kind = x.kind /\ (e.kind = "api" => Set(e.in, x.in) /\ Set(e.req, x.req) /\ Set(e.out, x.out) /\ e.sec = x.sec)
New == IF Ev.op = "register" THEN O!Entry(Ev.fields) ELSE [kind |-> Ev.op]
Next1 == IF Ev.op = "refused" THEN doc ELSE [p \in SetOf(Ev.paths) |-> New] @@ doc
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ doc = [p \in {} |-> 0]
TNext == /\ More /\ i' = i + 1 /\ UNCHANGED tr
         /\ doc' = Next1
         /\ {Ev.doc[n].path : n \in DOMAIN Ev.doc} = DOMAIN doc'
         /\ SetOf(Ev.served) = DOMAIN doc'
         /\ Len(Ev.doc) = Cardinality(DOMAIN doc')
         /\ \A n \in DOMAIN Ev.doc : Is(Ev.doc[n].entry, doc'[Ev.doc[n].path])
TSpec == TInit /\ [][TNext]_<<tr, i, doc>>
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
