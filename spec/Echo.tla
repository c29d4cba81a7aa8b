-------------------------------- MODULE Echo --------------------------------
(* The start of the shutdown and its echo, five seconds later.                *)
EXTENDS Naturals, TLC
CONSTANTS Delay,  \* of the echo
          Slack,  \* after which what must have happened has been seen
          Never   \* a time which is never reached
\* lo: the shutdown has not started before; hi: it has started by then
Empty == [lo |-> Never, hi |-> Never]
Ask(s, t) == IF s.lo = Never THEN [s EXCEPT !.lo = t] ELSE s
Answer(s, t) == IF s.hi = Never THEN [s EXCEPT !.hi = t] ELSE s
\* seen at time t
MaySee(s, what, t) == s.lo # Never /\ (what = "echo" => t >= s.lo + Delay)
\* not yet there at time t
MayMiss(s, what, t) == s.hi >= t \/ (what = "echo" /\ t <= s.hi + Delay + Slack)

\* the mechanism: a clock, the start at some moment within the first request, one timer
CONSTANTS End, Requests
VARIABLES now, s, req, begun, echo
vars == <<now, s, req, begun, echo>>
Init == now = 0 /\ s = Empty /\ req = [r \in Requests |-> "idle"] /\ begun = Never /\ echo = Never
Tick == now < End /\ (begun # Never => now < begun + Delay + Slack \/ echo # Never) /\ now' = now + 1 /\ UNCHANGED <<s, req, begun, echo>>
Request(r) == req[r] = "idle" /\ req' = [req EXCEPT ![r] = "asked"] /\ s' = Ask(s, now) /\ UNCHANGED <<now, begun, echo>>
Commit(r) == req[r] = "asked" /\ req' = [req EXCEPT ![r] = "done"] /\ begun' = (IF begun = Never THEN now ELSE begun) /\ UNCHANGED <<now, s, echo>>
Return(r) == req[r] = "done" /\ req' = [req EXCEPT ![r] = "idle2"] /\ s' = Answer(s, now) /\ UNCHANGED <<now, begun, echo>>
Fire == begun # Never /\ echo = Never /\ now >= begun + Delay /\ echo' = now /\ UNCHANGED <<now, s, req, begun>>
Next == Tick \/ Fire \/ \E r \in Requests : Request(r) \/ Commit(r) \/ Return(r)
Spec == Init /\ [][Next]_vars
\* whatever the mechanism shows is allowed
Sound == /\ begun # Never => MaySee(s, "started", now)
         /\ begun = Never => MayMiss(s, "started", now)
         /\ echo # Never => MaySee(s, "echo", now)
         /\ echo = Never => MayMiss(s, "echo", now)
Once == [][/\ begun # Never => begun' = begun
           /\ echo # Never => echo' = echo]_vars
=============================================================================
