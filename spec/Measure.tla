------------------------------- MODULE Measure -------------------------------
(* Which status a client receives and what is measured, whatever the handler   *)
(* writes. A behaviour is a sequence of writes and statuses.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
IsFinal(x) == x.k = "status" /\ (x.c >= 200 \/ x.c = 101)
\* the first final status or write decides
RECURSIVE Sent(_)
Sent(b) == IF b = <<>> THEN 200
           ELSE IF Head(b).k = "write" THEN 200
           ELSE IF IsFinal(Head(b)) THEN Head(b).c
           ELSE Sent(Tail(b))
\* outcomes of the handlers which do not write by themselves
Answer(o) == IF o.k = "error" THEN o.c ELSE IF o.k = "none" THEN 204 ELSE 200
One(m, c, reg) == <<[method |-> m, code |-> c, path |-> IF reg THEN "own" ELSE "any"]>>
Serve(reg, m, b) == [op |-> "serve", reg |-> reg, method |-> m, beh |-> b, ret |-> Sent(b), obs |-> One(m, Sent(b), TRUE)]
Function(reg, m, o) == [op |-> "function", reg |-> reg, method |-> m, out |-> o, ret |-> Answer(o), obs |-> One(m, Answer(o), TRUE)]

CONSTANTS Finals, Readies, Methods, MaxLen, Long
VARIABLES st, act
vars == <<st, act>>
View == st
Steps == {[k |-> "write", c |-> n] : n \in {0, 5}} \cup {[k |-> "status", c |-> c] : c \in Finals \cup {103}}
Seqs(n) == UNION {[1..k -> Steps] : k \in 0..n}
Regs == {"handle", "handlefunc", "mux", "subtree"}
Init == st = 204 /\ act = [op |-> "init"]
Handlers == /\ UNCHANGED st
            /\ \/ \E reg \in Regs, m \in Methods, b \in Seqs(MaxLen) : act' = Serve(reg, m, b)
               \/ \E reg \in Regs, b \in [1..Long -> Steps] : act' = Serve(reg, "GET", b)
               \/ \E reg \in {"request", "call", "api"}, m \in Methods, o \in {[k |-> "none", c |-> 0], [k |-> "body", c |-> 0]} \cup {[k |-> "error", c |-> c] : c \in {400, 404, 500, 503}} :
                    \* an operation always answers with an object
                    (reg = "api" => o.k # "none" /\ m = "POST") /\ act' = Function(reg, m, o)
               \/ \E reg \in {"handle", "handlefunc"}, m \in Methods \ {"HEAD"} : act' = [op |-> "hijack", reg |-> reg, method |-> m, ret |-> 101, obs |-> One(m, 101, TRUE)]
Probes == \/ \E m \in Methods : act' = [op |-> "probe", path |-> "/live", method |-> m, ret |-> 204, obs |-> One(m, 204, TRUE)] /\ UNCHANGED st
          \/ \E m \in Methods : act' = [op |-> "probe", path |-> "/ready", method |-> m, ret |-> st, obs |-> One(m, st, TRUE)] /\ UNCHANGED st
          \/ \E m \in Methods : act' = [op |-> "probe", path |-> "/openapi.json", method |-> m, ret |-> 200, obs |-> One(m, 200, TRUE)] /\ UNCHANGED st
          \/ \E m \in Methods, p \in {"/unknown", "/livex", "/live/", "/"} : act' = [op |-> "probe", path |-> p, method |-> m, ret |-> 404, obs |-> One(m, 404, FALSE)] /\ UNCHANGED st
          \* the path is not clean: the client is told the one to use
          \/ \E m \in {"GET"} : act' = [op |-> "probe", path |-> "//live", method |-> m, ret |-> 300, obs |-> One(m, 300, FALSE)] /\ UNCHANGED st
          \/ \E c \in Readies : st' = c /\ act' = [op |-> "setready", c |-> c, ret |-> 0, obs |-> <<>>]
Next == Handlers \/ Probes
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> [s |-> st], t |-> [s |-> st'], a |-> act', l |-> TLCGet("level")]))
\* every request is measured once, under its method and the status which was sent
Once == [][act'.op # "setready" => Len(act'.obs) = 1 /\ act'.obs[1].code = act'.ret /\ act'.obs[1].method = act'.method]_vars
\* what comes after the first final status or write changes nothing
FirstWins == [][act'.op = "serve" => \A n \in DOMAIN act'.beh : (act'.beh[n].k = "write" \/ IsFinal(act'.beh[n])) => act'.ret = Sent(SubSeq(act'.beh, 1, n))]_vars
=============================================================================
