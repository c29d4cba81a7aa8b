------------------------------ MODULE Shutdown ------------------------------
(* The shutdown of a process: holds, the one-way start, completion             *)
(* notifications, the wait for signals and its escalation.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Holds,    \* slots of plain holds
          Haws,     \* slots of hold-and-wait
          Dones,    \* slots of completion notifications
          Again,    \* whether holds are released again
          Signals   \* kinds of signals, none: nobody waits for signals
VARIABLES h,     \* slot -> "none" | "held" | "free" (released, the function to release it is kept)
          w,     \* slot -> "none" | "wait" (holds, waiting for the start) | "held" | "free"
          d,     \* slot -> "none" | "pend" | "fired"
          begun, canc, sigs, last,
          wfs,   \* the wait for signals: "off" | "on" | "ret" | "exit"
          act
core == <<h, w, d, begun, canc, sigs, last, wfs>>
vars == <<h, w, d, begun, canc, sigs, last, wfs, act>>
View == core
Held(hh, ww) == (\E i \in Holds : hh[i] = "held") \/ (\E i \in Haws : ww[i] \in {"wait", "held"})
Init == /\ h = [i \in Holds |-> "none"] /\ w = [i \in Haws |-> "none"] /\ d = [i \in Dones |-> "none"]
        /\ begun = FALSE /\ canc = FALSE /\ sigs = 0 /\ last = "" /\ wfs = "off" /\ act = [op |-> "init"]
\* what anybody can see
Flat(f, S) == LET RECURSIVE go(_) go(n) == IF n \notin S THEN <<>> ELSE <<f[n]>> \o go(n + 1) IN go(1)
Obs == IF wfs = "exit" THEN [exit |-> TRUE] ELSE
       [exit |-> FALSE, started |-> begun, cancelled |-> canc, wfs |-> wfs,
        done |-> Flat([i \in Dones |-> d[i] = "fired"], Dones), haw |-> Flat([i \in Haws |-> w[i] \in {"held", "free"}], Haws)]
\* the operation sets h, w, d, begun, canc, sigs, wfs to these values; then what became possible happens
Settle(hh, ww, dd, b, c, s, x) ==
  LET w2 == IF b THEN [i \in Haws |-> IF ww[i] = "wait" THEN "held" ELSE ww[i]] ELSE ww
      over == ~Held(hh, w2) IN
  /\ h' = hh /\ w' = w2 /\ begun' = b /\ canc' = c /\ sigs' = s
  /\ d' = IF over THEN [i \in Dones |-> IF dd[i] = "pend" THEN "fired" ELSE dd[i]] ELSE dd
  /\ wfs' = IF x = "on" /\ over THEN "ret" ELSE x
Label(a) == act' = a @@ [obs |-> Obs', ret |-> "ok"]
Run == wfs # "exit"
Hold(i) == h[i] # "held" /\ Settle([h EXCEPT ![i] = "held"], w, d, begun, canc, sigs, wfs) /\ UNCHANGED last /\ Label([op |-> "hold", i |-> i])
\* releasing again what has been released does nothing
Release(i) == h[i] \in (IF Again THEN {"held", "free"} ELSE {"held"}) /\ Settle([h EXCEPT ![i] = "free"], w, d, begun, canc, sigs, wfs) /\ UNCHANGED last /\ Label([op |-> "release", i |-> i])
Haw(i) == w[i] \in {"none", "free"} /\ Settle(h, [w EXCEPT ![i] = "wait"], d, begun, canc, sigs, wfs) /\ UNCHANGED last /\ Label([op |-> "haw", i |-> i, begun |-> begun])
RelHaw(i) == w[i] \in (IF Again THEN {"held", "free"} ELSE {"held"}) /\ Settle(h, [w EXCEPT ![i] = "free"], d, begun, canc, sigs, wfs) /\ UNCHANGED last /\ Label([op |-> "relhaw", i |-> i])
Done(i) == d[i] # "pend" /\ Settle(h, w, [d EXCEPT ![i] = "pend"], begun, canc, sigs, wfs) /\ UNCHANGED last /\ Label([op |-> "done", i |-> i])
Begin == Settle(h, w, d, TRUE, canc, sigs, wfs) /\ UNCHANGED last /\ Label([op |-> "begin"])
Wait == wfs = "off" /\ Signals # {} /\ Settle(h, w, d, begun, canc, sigs, "on") /\ UNCHANGED last /\ Label([op |-> "wait", held |-> Held(h, w)])
\* the first starts the shutdown, the second cancels, the third exits
\* (two signals of the same kind in a row may become one if the first one has no visible effect: not considered)
Sig(k, churn) == wfs = "on" /\ (sigs = 1 => k # last) /\ last' = k
  /\ (CASE sigs = 0 -> Settle(h, w, d, TRUE, canc, 1, wfs)
        [] sigs = 1 -> Settle(h, w, d, begun, TRUE, 2, wfs)
        [] sigs = 2 -> Settle(h, w, d, begun, canc, 3, "exit"))
  /\ Label([op |-> "sig", kind |-> k, churn |-> churn])
\* signals which arrive while the first of them is still being handled: none is lost
Kinds(n) == {ks \in [1..n -> Signals] : \A i, j \in 1..n : i # j => ks[i] # ks[j]}
Burst(ks) == /\ wfs = "on" /\ sigs + Len(ks) <= 3 /\ last # ks[1] /\ (\E i \in Holds : h[i] = "held")
             /\ last' = ks[Len(ks)] /\ LET n == sigs + Len(ks) IN Settle(h, w, d, TRUE, n >= 2, n, IF n = 3 THEN "exit" ELSE wfs)
             /\ Label([op |-> "burst", kinds |-> ks])
Next == Run /\ (\/ \E i \in Holds : Hold(i) \/ Release(i)
                \/ \E i \in Haws : Haw(i) \/ RelHaw(i)
                \/ \E i \in Dones : Done(i)
                \/ Begin \/ Wait
                \/ \E k \in Signals, churn \in BOOLEAN : Sig(k, churn)
                \/ \E n \in 2..3 : \E ks \in Kinds(n) : Burst(ks))
Spec == Init /\ [][Next]_vars
St(hh, ww, dd, b, c, s, l, x) == [h |-> Flat(hh, Holds), w |-> Flat(ww, Haws), d |-> Flat(dd, Dones), b |-> b, c |-> c, s |-> s, l |-> l, x |-> x]
Emit == PrintT(ToJson([f |-> St(h, w, d, begun, canc, sigs, last, wfs), t |-> St(h', w', d', begun', canc', sigs', last', wfs'), a |-> act', l |-> TLCGet("level")]))

\* no notification while a hold is outstanding; none missing when there is none
Complete == [][\A i \in Dones : (d'[i] = "fired" /\ d[i] # "fired") => ~Held(h', w')]_vars
Prompt == ~Held(h, w) => (\A i \in Dones : d[i] # "pend") /\ wfs # "on"
OneWay == [][begun => begun']_vars
HawWaits == \A i \in Haws : w[i] = "wait" => ~begun
Escalate == (sigs >= 1 => begun) /\ (sigs >= 2 <=> canc) /\ (sigs = 3 <=> wfs = "exit")
=============================================================================
