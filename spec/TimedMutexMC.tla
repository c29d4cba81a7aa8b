---------------------------- MODULE TimedMutexMC ----------------------------
(* Closed model: threads which lock, try and unlock for ever.                 *)
EXTENDS TimedMutex
CONSTANTS Threads, MaxTime
Limits == {-1, 0, 1, 2}
VARIABLE st \* thread -> "idle", "wait", "in", "failed"
vars == <<mvars, st>>
MInit == MInit0 /\ st = [t \in Threads |-> "idle"]
Go(t, x) == st' = [st EXCEPT ![t] = x]
Tick == now < MaxTime /\ Idle(now + 1, 0) /\ (\A t \in DOMAIN wait : wait[t].limit # -1 => wait[t].limit > now)
        /\ now' = now + 1 /\ UNCHANGED <<owner, free, wait, rel, until, st>>
MNext == \/ Tick
         \/ \E t \in Threads :
            \/ st[t] \in {"idle", "failed"} /\ \E d \in Limits : Try(t, IF d = -1 THEN -1 ELSE now + d, now, 0) /\ Go(t, "wait")
            \/ Acquire(t) /\ Go(t, "in")
            \/ Fail(t, now, 0) /\ Go(t, "failed")
            \/ st[t] = "in" /\ t \notin rel /\ Unlock(t, now, 0) /\ UNCHANGED st
            \/ Release(t) /\ Go(t, "idle")
MSpec == MInit /\ [][MNext]_vars
Exclusive == \A a, b \in Threads : (st[a] = "in" /\ st[b] = "in") => a = b
OwnerIsIn == \A t \in Threads : (owner = t) <=> st[t] = "in"
\* a failed attempt had no instant during which it could have been served
FailOk == [][\A t \in Threads : (st[t] = "wait" /\ st'[t] = "failed") => (owner # NoOne \/ free = now \/ wait[t].since = now)]_vars
=============================================================================
