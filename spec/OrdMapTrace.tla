----------------------------- MODULE OrdMapTrace -----------------------------
(* Long histories of an ordered map with many keys.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, m
tvars == <<tr, i, m>>
O == INSTANCE OrdMap WITH Keys <- {"k1", "k5"}, Vals <- {}, act <- 0
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
TInit == m = <<>> /\ tr \in 1..Len(Traces) /\ i = 1
TNext == More /\ i' = i + 1 /\ UNCHANGED tr /\
  \/ Ev.op = "put" /\ m' = O!Put(m, Ev.key, Ev.v) /\ Ev.ret = O!Val(m, Ev.key)
  \/ Ev.op = "del" /\ m' = O!Del(m, Ev.key) /\ Ev.ret = O!Val(m, Ev.key)
  \/ Ev.op = "range" /\ UNCHANGED m /\ Ev.ret = O!Range(m, Ev.n)
  \/ Ev.op = "look" /\ UNCHANGED m /\ Ev.ret = O!Look(m)
TSpec == TInit /\ [][TNext]_tvars
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
