-------------------------------- MODULE WsRpc --------------------------------
(* WebSocket RPC: several connections, each with its channels, each channel   *)
(* with an object of its own.  The frames of a connection are handled one     *)
(* after the other, in order; Handle gives what one of them does and sends.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Conns,      \* connections
          Full,       \* those used with every kind of frame (the others with a few)
          M,          \* numbers are counted modulo M
          MaxQ,       \* frames waiting behind a blocked handler
          Lite,       \* fewer kinds of objects
          Blocks      \* whether handlers block
VARIABLES con,        \* [k |-> [st, ch, on, q]]: "up", "down" or "busy" (a handler is blocked); objects by channel; blocked on, waiting frames
          shared,     \* what a pointer registered with the objects refers to
          act
core == <<con, shared>>
vars == <<con, shared, act>>
View == core
ChansOf(k) == IF k \in Full THEN {"x", "y"} ELSE {"x"}
None == [kind |-> "none", n |-> 0]
Down == [st |-> "down", ch |-> <<>>, on |-> "", q |-> <<>>]
\* what the objects are registered with
Start(kind) == IF kind = "counter" THEN 1 ELSE 0
Up(k) == [st |-> "up", ch |-> [c \in ChansOf(k) |-> None], on |-> "", q |-> <<>>]
Init == con = [k \in Conns |-> Down] /\ shared = 0 /\ act = [op |-> "init"]

F(c, p, t, d) == [ch |-> c, path |-> p, type |-> t, data |-> d]
N(n) == ToString(n)
Ok(c, p) == F(c, p, "return", "")
Failed(c, p) == <<F(c, p, "return", "fail"), F(c, "", "error", "fail")>>
R(s, sh, fr) == [s |-> s, sh |-> sh, fr |-> fr]
Set(s, c, n) == [s EXCEPT !.ch[c].n = n % M]
Del(s, c) == [s EXCEPT !.ch[c] = None]
Plus(a) == (a + 1) % M

\* what a method of an object does: the answers before the return frame are the handler's own
Call(s, sh, c, p) ==
  LET n == s.ch[c].n IN
  IF s.ch[c] = None THEN R(Down, sh, <<>>) ELSE
  CASE p = "inc"    -> R(Set(s, c, n + 1), sh, <<F(c, "n", "", N(Plus(n))), Ok(c, p)>>)
    [] p = "bump"   -> R(s, Plus(sh), <<F(c, "shared", "", N(Plus(sh))), Ok(c, p)>>)
    [] p = "quiet"  -> R(Set(s, c, n + 1), sh, <<Ok(c, p)>>)
    [] p = "partialAnswers"   -> R(Set(s, c, n + 1), sh, <<F(c, "n", "", "one"), F(c, "n", "", "two")>> \o Failed(c, p))
    [] p = "bad"    -> R(s, sh, Failed(c, "inc"))           \* inc, with an argument of the wrong shape
    [] p = "panic"  -> R(Down, sh, <<F(c, "n", "", "last")>>)
    [] p = "quit"   -> R(Down, sh, <<F(c, "n", "", "last")>>)    \* the handler closes the connection
    [] p = "bye"    -> R(Del(s, c), sh, <<Ok(c, p)>>)            \* the handler closes the channel
    [] p = "nopath" -> R(Down, sh, <<>>)

Opened(s, c, kind, n) == [s EXCEPT !.ch[c] = [kind |-> kind, n |-> n % M]]
\* whatever was there under that identifier is replaced
Open(s, sh, c, kind, arg) ==
  CASE kind = "plain" -> R(Opened(s, c, kind, Start(kind)), sh, <<>>)
    [] kind = "nope"  -> R(Down, sh, <<>>)
    [] kind = "counter" ->
       CASE arg \in {"0", "1"} -> LET n == Start(kind) + IF arg = "1" THEN 1 ELSE 0
                                  IN R(Opened(s, c, kind, n), sh, <<F(c, "hello", "", N(n % M))>>)
         [] arg \in {"fail", "bad"} -> R(Del(s, c), sh, <<F(c, "", "error", "fail")>>)
         [] arg = "panic" -> R(Down, sh, <<>>)

Handle(s, sh, a) ==
  CASE a.f = "open"  -> Open(s, sh, a.ch, a.kind, a.arg)
    [] a.f = "call"  -> Call(s, sh, a.ch, a.path)
    [] a.f = "close" -> IF s.ch[a.ch] = None THEN R(Down, sh, <<>>) ELSE R(Del(s, a.ch), sh, <<>>)
    [] a.f = "end"   -> R(Down, sh, <<>>)                     \* the client asks to close the connection
    [] a.f = "junk"  -> R(Down, sh, <<>>)                     \* not JSON, or not a frame
RECURSIVE All(_, _, _)
All(s, sh, q) == IF q = <<>> \/ s = Down THEN R(s, sh, <<>>)
                 ELSE LET x == Handle(s, sh, Head(q))
                          y == All(x.s, x.sh, Tail(q))
                      IN R(y.s, y.sh, x.fr \o y.fr)

OpenF(c, kind, arg) == [f |-> "open", ch |-> c, kind |-> kind, arg |-> arg]
CallF(c, p) == [f |-> "call", ch |-> c, path |-> p]
Frames(k) == IF k \in Full
  THEN {OpenF(c, "plain", "") : c \in ChansOf(k)} \cup {OpenF("x", "nope", "")}
       \cup {OpenF(c, "counter", a) : c \in IF Lite THEN {"x"} ELSE ChansOf(k), a \in {"0", "1", "fail"}} \cup {OpenF("x", "counter", a) : a \in {"bad", "panic"}}
       \cup {CallF(c, p) : c \in ChansOf(k), p \in {"inc", "bump", "partialAnswers", "bye"}} \cup {CallF("x", p) : p \in {"quiet", "bad", "panic", "quit", "nopath"}}
       \cup {[f |-> "close", ch |-> c] : c \in ChansOf(k)}
       \cup {[f |-> "end"]} \cup {[f |-> "junk", kind |-> j] : j \in {"json", "list", "number", "null", "type"}}
  ELSE {OpenF("x", "plain", ""), CallF("x", "inc"), CallF("x", "bump"), CallF("x", "panic"), [f |-> "close", ch |-> "x"]}
       \cup IF Lite THEN {} ELSE {OpenF("x", "counter", "1")}
\* frames sent while a handler is blocked
Waiting(k) == IF k \in Full
  THEN {CallF("x", "inc"), CallF("y", "bump"), CallF("y", "panic"), CallF("x", "partialAnswers"), [f |-> "close", ch |-> "x"], OpenF("y", "plain", "")}
  ELSE {CallF("x", "bump")}

\* what is asked to every connection after each step: which channels it has, with which object
ObsOf(s) == IF s.st = "up" THEN [st |-> "up", ch |-> [c \in {c \in DOMAIN s.ch : s.ch[c] # None} |-> s.ch[c]]]
            ELSE [st |-> s.st, ch |-> [c \in {} |-> None]]
Obs == [con |-> [k \in Conns |-> ObsOf(con[k])], shared |-> shared]
Label(a, ret) == act' = a @@ [ret |-> ret, obs |-> Obs']
To(k, s) == con' = [con EXCEPT ![k] = s]
Connect(k) == con[k] = Down /\ To(k, Up(k)) /\ UNCHANGED shared /\ Label([op |-> "connect", k |-> k], "ok")
Drop(k) == con[k].st = "up" /\ To(k, Down) /\ UNCHANGED shared /\ Label([op |-> "drop", k |-> k], "ok")
Send(k, a) == /\ con[k].st = "up"
              /\ LET x == Handle(con[k], shared, a)
                 IN To(k, x.s) /\ shared' = x.sh /\ Label([op |-> "send", k |-> k, a |-> a], x.fr)
\* one handler is blocked: nothing else of this connection moves, and the others do not notice
Block(k, c) == /\ Blocks /\ con[k].st = "up" /\ con[k].ch[c] # None
               /\ To(k, [con[k] EXCEPT !.st = "busy", !.on = c]) /\ UNCHANGED shared
               /\ Label([op |-> "block", k |-> k, ch |-> c], "entered")
Queue(k, a) == /\ con[k].st = "busy" /\ Len(con[k].q) < MaxQ
               /\ To(k, [con[k] EXCEPT !.q = Append(@, a)]) /\ UNCHANGED shared
               /\ Label([op |-> "queue", k |-> k, a |-> a], <<>>)
Release(k, out) ==
  /\ con[k].st = "busy"
  /\ LET s == [con[k] EXCEPT !.st = "up", !.on = "", !.q = <<>>]
         c == con[k].on
         x == CASE out = "ok" -> R(s, shared, <<Ok(c, "gate")>>)
                [] out = "fail" -> R(s, shared, Failed(c, "gate"))
                [] out = "panic" -> R(Down, shared, <<>>)
         y == All(x.s, x.sh, con[k].q)
     IN To(k, y.s) /\ shared' = y.sh /\ Label([op |-> "release", k |-> k, out |-> out], x.fr \o y.fr)
Next == \E k \in Conns :
          \/ Connect(k) \/ Drop(k)
          \/ \E a \in Frames(k) : Send(k, a)
          \/ \E c \in ChansOf(k) : con[k].st = "up" /\ Block(k, c)
          \/ \E a \in Waiting(k) : Queue(k, a)
          \/ \E o \in {"ok", "fail", "panic"} : Release(k, o)
Spec == Init /\ [][Next]_vars
St(c, s) == [c |-> c, s |-> s]
Emit == PrintT(ToJson([f |-> St(con, shared), t |-> St(con', shared'), a |-> act', l |-> TLCGet("level")]))

\* each step of one connection leaves the objects of the others alone
Isolated == [][\A k \in Conns : ("k" \in DOMAIN act' /\ act'.k # k) => con'[k] = con[k]]_vars
\* a call touches at most the object of its channel
OwnObject == [][\A k \in Conns : (act'.op = "send" /\ act'.k = k /\ con'[k] # Down /\ act'.a.f \in {"open", "call", "close"})
                  => \A c \in ChansOf(k) \ {act'.a.ch} : con'[k].ch[c] = con[k].ch[c]]_vars
\* a call has exactly one return frame, unless it ended the connection; a failure is told by both frames
Count(fr, t, d) == Cardinality({i \in 1..Len(fr) : fr[i].type = t /\ (d => fr[i].data = "fail")})
Answered == [][(act'.op = "send" /\ act'.a.f = "call")
                 => LET fr == act'.ret IN
                    /\ (con'[act'.k] # Down) => Count(fr, "return", FALSE) = 1
                    /\ Count(fr, "return", TRUE) = Count(fr, "error", TRUE)
                    /\ \A i \in 1..Len(fr) : fr[i].type = "return" => \A j \in i+1..Len(fr) : fr[j].type = "error"]_vars
=============================================================================
