------------------------------- MODULE ReadAll -------------------------------
(* Reading a whole stream with a context. A script is what the stream does:    *)
(* after delay d it delivers n bytes, and with the last ones its end, if any. *)
(* Time is discrete; what is due happens before time passes.                  *)
EXTENDS Naturals, Integers, Sequences, TLC
Start(script, ctxEnd) == [script |-> script, ctxEnd |-> ctxEnd, now |-> 0, pos |-> 1, due |-> IF script = <<>> THEN -1 ELSE script[1].d, out |-> 0, fin |-> "no", ret |-> <<>>]
Ret(s, n, err) == [s EXCEPT !.ret = <<[n |-> n, err |-> err, at |-> s.now]>>]
CanDeliver(s) == s.ret = <<>> /\ s.due = s.now
Deliver(s) == LET c == s.script[s.pos]  t == [s EXCEPT !.out = @ + c.n] IN
  IF c.end # "no" THEN [t EXCEPT !.due = -1, !.fin = c.end]
  ELSE IF s.pos = Len(s.script) THEN [t EXCEPT !.due = -1] \* nothing more, ever
  ELSE [t EXCEPT !.pos = @ + 1, !.due = s.now + s.script[s.pos + 1].d]
CanReturn(s) == s.ret = <<>> /\ s.fin # "no"
Return(s) == Ret(s, s.out, s.fin)
CanCancel(s) == s.ret = <<>> /\ s.ctxEnd # -1 /\ s.ctxEnd <= s.now
\* what was read so far may be given back as well
Cancel(s) == {Ret(s, n, "ctx") : n \in 0..s.out}
CanTick(s) == s.ret = <<>> /\ ~CanDeliver(s) /\ ~CanReturn(s) /\ ~CanCancel(s) /\ (s.due # -1 \/ s.ctxEnd # -1)
Tick(s) == [s EXCEPT !.now = @ + 1]

CONSTANTS Sizes, MaxTime, MaxChunks
VARIABLES s
Chunks == [d : 0..1, n : Sizes, end : {"no"}]
Ends == [d : 0..1, n : Sizes, end : {"eof", "err", "no"}]
Scripts == UNION {{Append(x, e) : x \in [1..k -> Chunks], e \in Ends} : k \in 0..MaxChunks}
Init == \E x \in Scripts, t \in -1..MaxTime : s = Start(x, t)
Next == \/ CanDeliver(s) /\ s' = Deliver(s)
        \/ CanReturn(s) /\ s' = Return(s)
        \/ CanCancel(s) /\ \E t \in Cancel(s) : s' = t
        \/ CanTick(s) /\ s' = Tick(s)
Spec == Init /\ [][Next]_s /\ WF_s(Next)
RECURSIVE Sum(_)
Sum(x) == IF x = <<>> THEN 0 ELSE Head(x).n + Sum(Tail(x))
Whole == (s.ret # <<>> /\ s.ret[1].err # "ctx") => s.ret[1].n = Sum(s.script)
Prompt == (s.ret # <<>> /\ s.ctxEnd # -1) => s.ret[1].at <= s.ctxEnd
Ends_ == s.script[Len(s.script)].end
Returns == (s.ctxEnd # -1 \/ Ends_ # "no") ~> (s.ret # <<>>)
=============================================================================
