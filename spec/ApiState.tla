------------------------------- MODULE ApiState -------------------------------
(* Requests executed on copies of a registered object: each starts with the    *)
(* values of the registration and what came with the request, nobody sees what *)
(* another does but through what was registered as shared.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
In(v) == IF v = "absent" THEN "zero" ELSE v
Wires == {[in |-> "absent", opt |-> "v1", both |-> "v1"], [in |-> "v1", opt |-> "bad", both |-> "v2"], \* rejected, the second when half of it was read
          [in |-> "v1", opt |-> "absent", both |-> "absent"], [in |-> "v1", opt |-> "v1", both |-> "absent"],
          [in |-> "v2", opt |-> "absent", both |-> "v2"], [in |-> "v2", opt |-> "v2", both |-> "v1"]}
Accepted(w) == w.in # "absent" /\ w.opt # "bad" /\ w.both # "bad"
\* the object when the operation starts
Object(w, id, reg) == [in |-> In(w.in), opt |-> In(w.opt), both |-> In(w.both), who |-> In(id), out |-> "zero",
                       plain |-> reg, arr |-> reg, str |-> reg, hidden |-> reg]
All(v) == [in |-> v, opt |-> v, both |-> v, who |-> v, out |-> v, plain |-> v, arr |-> v, str |-> v, hidden |-> v]
None == [none |-> TRUE]

CONSTANTS Reqs, Max
VARIABLES st, act
vars == <<st, act>>
View == st
Init == st = [req |-> [r \in Reqs |-> None], shared |-> 0, own |-> "reg"] /\ act = [op |-> "init"]
Recv(r, w, id) == /\ st.req[r] = None
                  /\ IF Accepted(w) THEN st' = [st EXCEPT !.req[r] = Object(w, id, "reg")] /\ act' = [op |-> "recv", r |-> r, wire |-> w, id |-> id, ret |-> "ok"]
                     ELSE st' = st /\ act' = [op |-> "recv", r |-> r, wire |-> w, id |-> id, ret |-> "rejected"]
Running(r) == st.req[r] # None
Look(r) == Running(r) /\ UNCHANGED st /\ act' = [op |-> "look", r |-> r, ret |-> st.req[r]]
Write(r, v) == Running(r) /\ st' = [st EXCEPT !.req[r] = All(v)] /\ act' = [op |-> "write", r |-> r, v |-> v, ret |-> 0]
Share(r) == Running(r) /\ st.shared < Max /\ st' = [st EXCEPT !.shared = @ + 1] /\ act' = [op |-> "share", r |-> r, ret |-> st.shared + 1]
\* the operation fails: nothing is sent
Fail(r) == Running(r) /\ st' = [st EXCEPT !.req[r] = None] /\ act' = [op |-> "fail", r |-> r, ret |-> 0]
Send(r) == Running(r) /\ st' = [st EXCEPT !.req[r] = None] /\ act' = [op |-> "send", r |-> r, ret |-> [both |-> st.req[r].both, out |-> st.req[r].out]]
\* whoever registered the object still has it
Own(v) == st' = [st EXCEPT !.own = v] /\ act' = [op |-> "own", v |-> v, ret |-> 0]
LookOwn == UNCHANGED st /\ act' = [op |-> "lookown", ret |-> [vals |-> All(st.own), shared |-> st.shared]]
Next == \/ \E r \in Reqs, w \in Wires, id \in {"absent", "v2"} : Recv(r, w, id)
        \/ \E r \in Reqs : Look(r) \/ Share(r) \/ Fail(r) \/ Send(r) \/ \E v \in {"v1", "v3"} : Write(r, v)
        \/ \E v \in {"v3"} : Own(v)
        \/ LookOwn
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> [s |-> st], t |-> [s |-> st'], a |-> act', l |-> TLCGet("level")]))
\* what a step of a request leaves alone
Isolated == [][act'.op \in {"recv", "write", "fail", "send", "share", "own"} =>
                 \A r \in Reqs : (IF "r" \in DOMAIN act' THEN r # act'.r ELSE TRUE) => st'.req[r] = st.req[r]]_vars
Fresh == [][act'.op = "recv" /\ act'.ret = "ok" => LET o == st'.req[act'.r] IN o.plain = "reg" /\ o.out = "zero" /\ o.in = act'.wire.in]_vars
=============================================================================
