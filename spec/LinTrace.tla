------------------------------ MODULE LinTrace ------------------------------
(* Trace validation for concurrent histories: is there a sequential order of  *)
(* the recorded calls, consistent with real time, in which every call answers *)
(* what the object specification allows?  The object is given by InitOf(init) *)
(* and Apply(s, op) == the set of allowed [s |-> next state, ret |-> answer]. *)
(* Calls take effect as late as possible: only when the next event is the     *)
(* response of a call that has not taken effect yet (this loses no order).    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS InitOf(_), Apply(_, _)

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, i, s, pend
lvars == <<tr, i, s, pend>>

Empty == [x \in {} |-> x]

LInit == /\ tr \in 1..Len(Traces)
         /\ i = 1
         /\ s = InitOf(Traces[tr].init)
         /\ pend = Empty

Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)

Invoke == /\ More /\ Ev.k = "inv"
          /\ pend' = (Ev.t :> [ev |-> Ev, done |-> FALSE]) @@ pend
          /\ i' = i + 1
          /\ UNCHANGED <<tr, s>>

Respond == /\ More /\ Ev.k = "res"
           /\ pend[Ev.t].done
           /\ pend' = [t \in DOMAIN pend \ {Ev.t} |-> pend[t]]
           /\ i' = i + 1
           /\ UNCHANGED <<tr, s>>

Lin(t) == /\ More /\ Ev.k = "res" /\ ~pend[Ev.t].done
          /\ ~pend[t].done
          /\ \E o \in Apply(s, pend[t].ev.op) :
                /\ "ret" \in DOMAIN pend[t].ev => o.ret = pend[t].ev.ret
                /\ s' = o.s
          /\ pend' = [pend EXCEPT ![t].done = TRUE]
          /\ UNCHANGED <<tr, i>>

LNext == Invoke \/ Respond \/ \E t \in DOMAIN pend : Lin(t)

LSpec == LInit /\ [][LNext]_lvars

(* A constraint: reports accepted traces, and does not explore beyond them.   *)
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
(* For the diagnosis of a rejected trace.                                     *)
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
