----------------------------- MODULE TimedMutex -----------------------------
(* A lock with plain and timed attempts (utils/sync/mutex.go) and time.        *)
(* No thread is 0. wait: thread -> [since, limit], limit = -1 for ever.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES now, owner, free, wait, rel, until
mvars == <<now, owner, free, wait, rel, until>>
NoOne == 0
Max(a, b) == IF a > b THEN a ELSE b
MInit0 == /\ now = 0 /\ owner = NoOne /\ free = 0
          /\ wait = [x \in {} |-> 0]    \* attempts going on
          /\ rel = {}                   \* unlocking
          /\ until = -1                 \* the limit of the attempt which made the owner
\* time goes on only if nobody waits for a lock which is free (up to a slack of the scheduler)
Idle(at, slack) ==
  /\ at >= now
  /\ owner = NoOne => \A t \in DOMAIN wait :
       LET from == Max(free, wait[t].since) IN
       at > from + slack => wait[t].limit # -1 /\ wait[t].limit <= from + slack
Try(t, limit, at, slack) == /\ t \notin DOMAIN wait /\ Idle(at, slack)
                     /\ wait' = (t :> [since |-> at, limit |-> limit, got |-> FALSE]) @@ wait
                     /\ now' = at /\ UNCHANGED <<owner, free, rel, until>>
Acquire(t) == /\ t \in DOMAIN wait /\ owner = NoOne
              /\ owner' = t /\ wait' = [x \in DOMAIN wait \ {t} |-> wait[x]] /\ until' = wait[t].limit /\ UNCHANGED <<now, free, rel>>
\* a timed attempt does not go on past its limit
Got(t, at, slack) == /\ owner = t /\ Idle(at, slack) /\ (until = -1 \/ at <= until + slack)
                     /\ now' = at /\ UNCHANGED <<owner, free, wait, rel, until>>
\* the attempt ended without the lock: not before its limit
Fail(t, at, slack) == /\ t \in DOMAIN wait /\ wait[t].limit # -1 /\ wait[t].limit <= at /\ at <= wait[t].limit + slack
               /\ Idle(at, slack)
               /\ wait' = [x \in DOMAIN wait \ {t} |-> wait[x]] /\ now' = at /\ UNCHANGED <<owner, free, rel, until>>
Unlock(t, at, slack) == owner = t /\ Idle(at, slack) /\ rel' = rel \cup {t} /\ now' = at /\ UNCHANGED <<owner, free, wait, until>>
Release(t) == owner = t /\ t \in rel /\ owner' = NoOne /\ free' = now /\ rel' = rel \ {t} /\ UNCHANGED <<now, wait, until>>
Unlocked(t, at, slack) == t \notin rel /\ Idle(at, slack) /\ now' = at /\ UNCHANGED <<owner, free, wait, rel, until>>
=============================================================================
