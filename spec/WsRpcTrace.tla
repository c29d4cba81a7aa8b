----------------------------- MODULE WsRpcTrace -----------------------------
(* Several clients pipeline frames: what runs on the server (enter, exit) and  *)
(* what the clients receive is what WsRpc says, connection by connection.      *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, s
Names == {"a", "b", "c", "d"}
W == INSTANCE WsRpc WITH Conns <- Names, Full <- Names, M <- 1000, MaxQ <- 0, Lite <- FALSE, Blocks <- FALSE, con <- 0, shared <- 0, act <- 0
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
\* of a connection: its state, frames sent and not handled yet, frames it was sent and did not receive yet, whether a handler
\* runs, and how many of those frames are its own
New(k) == [s |-> W!Up(k), sq |-> <<>>, out |-> <<>>, run |-> FALSE, mine |-> 0]
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ s = [con |-> [k \in Names |-> New(k)], sh |-> 0]
\* frames handled without running any code of the objects
Silent(st, a) == CASE a.f = "open" -> a.kind # "counter" \/ a.arg = "bad"
                   [] a.f = "call" -> st.ch[a.ch] = W!None \/ a.path \in {"bad", "nopath"}
                   [] OTHER -> TRUE
RECURSIVE Drain(_)
Drain(c) == IF c.run THEN c
            ELSE IF c.s = W!Down THEN [c EXCEPT !.sq = <<>>]
            ELSE IF c.sq = <<>> THEN c
            ELSE IF ~Silent(c.s, Head(c.sq)) THEN c
            ELSE LET x == W!Handle(c.s, 0, Head(c.sq)) IN Drain([c EXCEPT !.s = x.s, !.sq = Tail(@), !.out = @ \o x.fr])
Matches(a, e) == IF a.f = "open" THEN e.path = "init" ELSE a.ch = e.ch /\ a.path = e.path
TNext == /\ More /\ i' = i + 1 /\ UNCHANGED tr
         /\ IF Ev.e = "end" THEN s' = s /\ \A k \in Names : LET d == Drain(s.con[k]) IN d.out = <<>> /\ ~d.run /\ (d.sq = <<>>)
            ELSE LET k == Ev.k
                     c == s.con[k]
                     d == Drain(c)
                 IN CASE Ev.e = "send" -> s' = [s EXCEPT !.con[k].sq = Append(@, Ev.a)]
                      [] Ev.e = "enter" -> /\ ~c.run /\ d.sq # <<>> /\ Matches(Head(d.sq), Ev)
                                           /\ LET x == W!Handle(d.s, s.sh, Head(d.sq))
                                              IN s' = [s EXCEPT !.con[k] = [s |-> x.s, sq |-> Tail(d.sq), out |-> d.out \o x.fr, run |-> TRUE, mine |-> Len(x.fr)], !.sh = x.sh]
                      [] Ev.e = "exit" -> c.run /\ s' = [s EXCEPT !.con[k].run = FALSE]
                      [] Ev.e = "recv" -> /\ d.out # <<>> /\ Head(d.out) = Ev.frame
                                          \* the answer comes when the handler is done
                                          /\ (c.run /\ Ev.frame.type \in {"return", "error"}) => Len(c.out) > c.mine
                                          /\ s' = [s EXCEPT !.con[k] = [d EXCEPT !.out = Tail(@)]]
                      [] Ev.e = "eof" -> d.s = W!Down /\ d.out = <<>> /\ s' = [s EXCEPT !.con[k] = d]
TSpec == TInit /\ [][TNext]_<<tr, i, s>>
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
