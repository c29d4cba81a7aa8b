------------------------------- MODULE ReqCtx -------------------------------
(* The context of every request (package http): what it carries, and when it  *)
(* ends. Clients have one connection each, on which requests follow each      *)
(* other.                                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Hows == {"handle", "mux", "request", "call", "api", "ws"}
\* the only tags the server speaks for; each is there once
Tags(c, ua, path) == [base |-> <<"base">>, addr |-> <<"own">>, remote |-> <<c>>, ua |-> <<ua>>, path |-> <<path>>]
Idle == [how |-> "idle", ua |-> "", path |-> ""]
Busy(r) == r.how # "idle"

CONSTANTS Clients, Uas, Paths
VARIABLES st, act
vars == <<st, act>>
View == st
Init == st = [r |-> [c \in Clients |-> Idle], alive |-> TRUE] /\ act = [op |-> "init"]
\* which of the requests are over
Obs(s) == [c \in Clients |-> IF Busy(s.r[c]) THEN (IF s.alive THEN "on" ELSE "over") ELSE "none"]
\* a handler sees its context, and stays
Start(c, how, ua, path) ==
  /\ ~Busy(st.r[c]) /\ (path # "p1" => how \in {"handle", "mux"})
  /\ st' = [st EXCEPT !.r[c] = [how |-> how, ua |-> ua, path |-> path]]
  /\ act' = [op |-> "start", c |-> c, how |-> how, ua |-> ua, path |-> path, ret |-> Tags(c, ua, path), obs |-> Obs(st')]
\* it answers: its context ends
Finish(c) == /\ Busy(st.r[c]) /\ st' = [st EXCEPT !.r[c] = Idle]
             /\ act' = [op |-> "finish", c |-> c, ret |-> "over", obs |-> Obs(st')]
\* the client goes away: the context ends, before the handler does unless nobody looks at the connection meanwhile
Drop(c) == /\ Busy(st.r[c]) /\ st' = [st EXCEPT !.r[c] = Idle]
           /\ act' = [op |-> "drop", c |-> c, ret |-> "over", obs |-> Obs(st')]
\* what the server was given ends: so does everything
Stop == st' = [st EXCEPT !.alive = FALSE] /\ act' = [op |-> "stop", ret |-> "ok", obs |-> Obs(st')]
Next == /\ st.alive
        /\ \/ \E c \in Clients : \/ \E how \in Hows, ua \in Uas, path \in Paths : Start(c, how, ua, path)
                                 \/ Finish(c) \/ Drop(c)
           \/ Stop
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> st, t |-> st', a |-> act', l |-> TLCGet("level")]))
\* what one client does says nothing about the requests of the others
Isolated == [][act'.op \in {"start", "finish", "drop"} => \A c \in Clients \ {act'.c} : st'.r[c] = st.r[c] /\ (Busy(st.r[c]) => act'.obs[c] = "on")]_vars
Named == [][act'.op = "start" => /\ act'.ret.remote = <<act'.c>> /\ act'.ret.ua = <<act'.ua>> /\ act'.ret.path = <<act'.path>>]_vars
=============================================================================
