------------------------------- MODULE Listen -------------------------------
(* HTTP servers and the shutdown: from a successful listen until the server    *)
(* has stopped and its requests are answered, the shutdown does not complete.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Servers, Requests, Kinds
VARIABLES srv,    \* "none" | "up" | "late" (asked for after the start of the shutdown: fails, or succeeds and stops)
          req,    \* [s |-> 0 or its server, kind, st |-> "none" | "in" | "ok"]
          begun, act
core == <<srv, req, begun>>
vars == <<srv, req, begun, act>>
View == core
NoReq == [s |-> 0, kind |-> "", st |-> "none"]
Init == srv = [s \in Servers |-> "none"] /\ req = [r \in Requests |-> NoReq] /\ begun = FALSE /\ act = [op |-> "init"]
\* what keeps the shutdown from completing
Holding == (\E s \in Servers : srv[s] = "up" /\ ~begun) \/ (\E r \in Requests : req[r].st = "in")
Seq_(f, n) == [i \in 1..n |-> f[i]]
NS == Cardinality(Servers)
NR == Cardinality(Requests)
\* done: the shutdown is complete; conn: which servers accept connections; req: which requests have got their full answer
Obs == [done |-> ~Holding, conn |-> [s \in 1..NS |-> srv[s] = "up" /\ ~begun], req |-> [r \in 1..NR |-> req[r].st]]
Label(a, ret) == act' = a @@ [ret |-> ret, obs |-> Obs']
Listen(s) == srv[s] = "none" /\ ~begun /\ srv' = [srv EXCEPT ![s] = "up"] /\ UNCHANGED <<req, begun>> /\ Label([op |-> "listen", s |-> s], "ok")
\* not forever, whatever the result
ListenLate(s) == srv[s] = "none" /\ begun /\ srv' = [srv EXCEPT ![s] = "late"] /\ UNCHANGED <<req, begun>>
                 /\ \E res \in {"ok", "error"} : Label([op |-> "listen", s |-> s], res)
\* an address which is taken, or wrong: an error, and nothing is held
ListenBad(k) == UNCHANGED <<srv, req, begun>> /\ Label([op |-> "bad", kind |-> k], "error")
Enter(r, s, k) == srv[s] = "up" /\ ~begun /\ req[r].st # "in" /\ req' = [req EXCEPT ![r] = [s |-> s, kind |-> k, st |-> "in"]] /\ UNCHANGED <<srv, begun>>
                  /\ Label([op |-> "enter", r |-> r, s |-> s, kind |-> k], "ok")
Leave(r) == req[r].st = "in" /\ req' = [req EXCEPT ![r] = [NoReq EXCEPT !.st = "ok"]] /\ UNCHANGED <<srv, begun>> /\ Label([op |-> "leave", r |-> r], "ok")
Begin == ~begun /\ begun' = TRUE /\ UNCHANGED <<srv, req>> /\ Label([op |-> "begin"], "ok")
Next == \/ \E s \in Servers : Listen(s) \/ ListenLate(s)
        \/ \E k \in {"taken", "wrong"} : ListenBad(k)
        \/ \E r \in Requests, s \in Servers, k \in Kinds : Enter(r, s, k)
        \/ \E r \in Requests : Leave(r)
        \/ Begin
Spec == Init /\ [][Next]_vars
St(sr, rq, b) == [s |-> Seq_(sr, NS), r |-> Seq_(rq, NR), b |-> b]
Emit == PrintT(ToJson([f |-> St(srv, req, begun), t |-> St(srv', req', begun'), a |-> act', l |-> TLCGet("level")]))
\* what was in flight when the shutdown started is answered before it completes
Drained == [][\A r \in Requests : (begun /\ req[r].st = "in" /\ ~Holding') => req'[r].st = "ok"]_vars
Held == (\E s \in Servers : srv[s] = "up") /\ ~begun => Holding
=============================================================================
