------------------------------- MODULE WsConn -------------------------------
(* The life of WebSocket connections: connect callback, data callbacks, every  *)
(* way to end; what each callback is given, and what holds the shutdown.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Conns, MaxQ, MaxD,
          Rpc     \* an RPC server: an object is created first, its methods are the data callbacks
VARIABLES c,      \* [ph, q, dl, end, can]: phase, messages waiting, messages delivered, the client is done, what was cancelled
          act
vars == <<c, act>>
View == c
Gone(x) == [x EXCEPT !.ph = "gone", !.q = 0, !.end = FALSE, !.can = ""]
Init == c = [k \in Conns |-> [ph |-> "none", q |-> 0, dl |-> 0, end |-> FALSE, can |-> ""]] /\ act = [op |-> "init"]
Live(x) == x.ph \in {"connecting", "idle", "handling"}
Seq_(f) == [i \in 1..Cardinality(Conns) |-> f[i]]
\* connects: how many times the connect callback ran; ctx: what has become of the context given to it
\* (once the client is done it may be cancelled at any time, and it is at the end)
ObsOf(x) == [ph |-> x.ph, connects |-> IF x.ph = "none" THEN 0 ELSE 1, dl |-> x.dl, ctx |-> IF x.end THEN "any" ELSE IF x.ph = "gone" \/ x.can = "request" THEN "cancelled" ELSE "live"]
Obs == [con |-> Seq_([k \in Conns |-> ObsOf(c[k])]), held |-> \E k \in Conns : Live(c[k])]
Label(a, ret) == act' = a @@ [ret |-> ret, obs |-> Obs']
To(k, x) == c' = [c EXCEPT ![k] = x]
\* the callback has returned without error: what is next
Settle(x) == IF x.can # "" THEN Gone(x)
             ELSE IF x.q > 0 THEN [x EXCEPT !.ph = "handling", !.q = @ - 1, !.dl = @ + 1]
             ELSE IF x.end THEN Gone(x)
             ELSE [x EXCEPT !.ph = "idle"]
Connect(k) == c[k].ph = "none" /\ To(k, [c[k] EXCEPT !.ph = "connecting"]) /\ Label([op |-> "connect", k |-> k], "ok")
Refused(k) == c[k].ph = "none" /\ UNCHANGED c /\ Label([op |-> "refused", k |-> k], "refused")
Accept(k, out) == /\ c[k].ph = "connecting" /\ (out = "close" => c[k].q = 0)
                  /\ To(k, IF out = "ok" THEN Settle(c[k]) ELSE Gone(c[k]))
                  /\ Label([op |-> "accept", k |-> k, out |-> out], "ok")
Data(k) == LET x == c[k] IN
           /\ Live(x) /\ ~x.end /\ x.can = "" /\ x.q < MaxQ /\ x.dl + x.q < MaxD
           /\ To(k, IF x.ph = "idle" THEN [x EXCEPT !.ph = "handling", !.dl = @ + 1] ELSE [x EXCEPT !.q = @ + 1])
           /\ Label([op |-> "data", k |-> k], "ok")
Finish(k, out) == /\ c[k].ph = "handling" /\ (out = "close" => c[k].q = 0)
                  /\ To(k, IF out = "ok" \/ (Rpc /\ out = "error") THEN Settle(c[k]) ELSE Gone(c[k]))
                  /\ Label([op |-> "finish", k |-> k, out |-> out], "ok")
End(k, how) == LET x == c[k] IN
               /\ Live(x) /\ ~x.end /\ x.can = ""
               /\ To(k, IF x.ph = "idle" THEN Gone(x) ELSE [x EXCEPT !.end = TRUE])
               /\ Label([op |-> "end", k |-> k, how |-> how], "ok")
Cancel(k, which) == LET x == c[k] IN
                    /\ Live(x) /\ ~x.end /\ x.can = "" /\ x.q = 0 /\ (which = "own" => x.ph # "connecting" /\ ~Rpc)
                    /\ To(k, IF x.ph = "idle" THEN Gone(x) ELSE [x EXCEPT !.can = which])
                    /\ Label([op |-> "cancel", k |-> k, which |-> which], "ok")
\* the client does not read what the callback sends, and the connection is cancelled
Stall(k) == LET x == c[k] IN
            /\ k = 1 /\ x.ph = "handling" /\ ~x.end /\ x.can = "" /\ x.q = 0 /\ \A j \in Conns \ {k} : c[j].ph = "none"
            /\ To(k, Gone(x)) /\ Label([op |-> "stall", k |-> k], "ok")
Next == \E k \in Conns :
          \/ Connect(k) \/ Refused(k) \/ Data(k) \/ Stall(k)
          \/ \E o \in ({"ok", "panic", "close"} \cup IF Rpc THEN {} ELSE {"error", "nil"}) : Accept(k, o)
          \/ \E o \in {"ok", "error", "panic", "close"} : Finish(k, o)
          \/ \E h \in {"frame", "drop"} : End(k, h)
          \/ \E w \in {"request", "own"} : Cancel(k, w)
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> Seq_(c), t |-> Seq_(c'), a |-> act', l |-> TLCGet("level")]))
\* nothing is delivered to a connection which was not accepted, and none twice; the end is final
Order == [][\A k \in Conns : /\ c'[k].dl > c[k].dl => c'[k].ph = "handling" /\ c'[k].dl = c[k].dl + 1
                             /\ c[k].ph = "gone" => c'[k] = c[k]
                             /\ c[k].ph = "none" => c'[k].ph \in {"none", "connecting"}]_vars
\* a cancelled or finished connection ends with its running callback
Ends == \A k \in Conns : (c[k].end \/ c[k].can # "") => c[k].ph \in {"connecting", "handling"}
=============================================================================
