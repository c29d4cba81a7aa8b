------------------------------- MODULE WsChaos -------------------------------
(* A client which sends anything: its connection keeps working or is closed,   *)
(* nobody else notices, and nothing is left behind.                            *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Handlers,   \* "generic", "rpc"
          Kinds,      \* what a client may send, and still be asked whether it is served
          Parts       \* what leaves it in the middle of a frame
VARIABLES att,        \* the connection of the attacker: [h, st], st: "none", "open" or "part" (nobody knows)
          ok,         \* whether another client is connected
          act
vars == <<att, ok, act>>
View == <<att, ok>>
None == [h |-> "", st |-> "none"]
Init == att = None /\ ok = FALSE /\ act = [op |-> "init"]
\* ok: the other client is served; held: the shutdown is held ("any" in the middle of a frame: the connection may be closed already)
Obs == [ok |-> ok, held |-> IF ok \/ att.st = "open" THEN "yes" ELSE IF att.st = "none" THEN "no" ELSE "any"]
Label(a, ret) == act' = a @@ [ret |-> ret, obs |-> Obs']
Attach(h) == att = None /\ att' = [h |-> h, st |-> "open"] /\ UNCHANGED ok /\ Label([op |-> "attach", h |-> h], "open")
\* either of the two, and then for good
Hostile(k) == /\ att.st = "open" /\ UNCHANGED ok
              /\ \/ att' = att /\ Label([op |-> "send", kind |-> k], "open")
                 \/ att' = None /\ Label([op |-> "send", kind |-> k], "closed")
\* what every client does is served
Proper == att.st = "open" /\ UNCHANGED <<att, ok>> /\ Label([op |-> "send", kind |-> "proper"], "open")
Part(p) == att.st \in {"open", "part"} /\ att' = [att EXCEPT !.st = "part"] /\ UNCHANGED ok /\ Label([op |-> "part", kind |-> p], "sent")
Drop(how) == att # None /\ att' = None /\ UNCHANGED ok /\ Label([op |-> "drop", how |-> how], "ok")
Join == ~ok /\ ok' = TRUE /\ UNCHANGED att /\ Label([op |-> "join"], "ok")
Leave == ok /\ ok' = FALSE /\ UNCHANGED att /\ Label([op |-> "leave"], "ok")
Next == \/ \E h \in Handlers : Attach(h)
        \/ \E k \in Kinds : Hostile(k)
        \/ Proper \/ Join \/ Leave
        \/ \E p \in Parts : Part(p)
        \/ \E w \in {"fin", "reset", "half"} : Drop(w)
Spec == Init /\ [][Next]_vars
St(a, b) == [a |-> a, ok |-> b]
Emit == PrintT(ToJson([f |-> St(att, ok), t |-> St(att', ok'), a |-> act', l |-> TLCGet("level")]))
Others == [][(act'.op \notin {"join", "leave"}) => ok' = ok]_vars
=============================================================================
