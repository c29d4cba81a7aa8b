-------------------------------- MODULE Pipe --------------------------------
(* The in-memory pipes. Two directions, each a bounded queue which can be     *)
(* closed; operations block until they can commit. ops: id -> operation.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Dirs == {1, 2}
Fresh == [q |-> <<>>, closed |-> FALSE, sent |-> <<>>, got |-> <<>>]
Start(s, id, kind, d, v) == [s EXCEPT !.ops = Append(@, [kind |-> kind, d |-> d, v |-> v, res |-> "pend", canceled |-> FALSE])]
CancelOp(s, id) == [s EXCEPT !.ops[id].canceled = TRUE]
Res(s, id, r) == [s EXCEPT !.ops[id].res = r]
Enq(s, d, v) == [s EXCEPT !.dir[d].q = Append(@, v), !.dir[d].sent = Append(@, v)]
Deq(s, d) == [s EXCEPT !.dir[d].q = Tail(@), !.dir[d].got = Append(@, Head(s.dir[d].q))]
Pending(s) == {id \in DOMAIN s.ops : s.ops[id].res = "pend"}
\* what must happen, sooner or later, to a pending operation: the states after it
Commit(s, id) == LET o == s.ops[id]  d == s.dir[o.d] IN
  (IF o.canceled THEN {Res(s, id, "canceled")} ELSE {}) \cup
  CASE o.kind = "close" -> {Res([s EXCEPT !.dir[o.d].closed = TRUE], id, "ok")}
    [] o.kind = "write" -> IF d.closed THEN {Res(s, id, "closed")}
                           ELSE IF Len(d.q) < s.cap THEN {Res(Enq(s, o.d, o.v), id, "ok")}
                           ELSE IF d.q = <<>> THEN \* no buffer: handed over to a reader
                             {Res(Res(Deq(Enq(s, o.d, o.v), o.d), id, "ok"), r, o.v) : r \in {r \in Pending(s) : s.ops[r].kind = "read" /\ s.ops[r].d = o.d}}
                           ELSE {}
    [] o.kind = "read" -> IF d.q # <<>> THEN {Res(Deq(s, o.d), id, Head(d.q))} ELSE IF d.closed THEN {Res(s, id, "eof")} ELSE {}
\* what may happen as well: writing towards an end which is closed may fail
May(s, id) == LET o == s.ops[id] IN IF o.kind = "write" /\ s.dir[3 - o.d].closed THEN {Res(s, id, "closed")} ELSE {}
Busy(s) == \E id \in Pending(s) : Commit(s, id) # {}
Empty(cap) == [cap |-> cap, dir |-> [d \in Dirs |-> Fresh], ops |-> <<>>]

CONSTANTS MaxOps, Caps
VARIABLES s
Init == \E c \in Caps : s = Empty(c)
Next == \/ \E id \in Pending(s) : \E t \in Commit(s, id) \cup May(s, id) : s' = t
        \/ Len(s.ops) < MaxOps /\ \E d \in Dirs, k \in {"write", "read", "close"} : s' = Start(s, 0, k, d, ToString(Len(s.ops) + 1))
        \/ \E id \in Pending(s) : s.ops[id].kind # "close" /\ ~s.ops[id].canceled /\ s' = CancelOp(s, id)
Spec == Init /\ [][Next]_s
\* delivered once, in order, nothing lost
Fifo == \A d \in Dirs : s.dir[d].sent = s.dir[d].got \o s.dir[d].q
Reported == \A d \in Dirs : {s.dir[d].sent[j] : j \in DOMAIN s.dir[d].sent} = {s.ops[id].v : id \in {id \in DOMAIN s.ops : s.ops[id].kind = "write" /\ s.ops[id].d = d /\ s.ops[id].res = "ok"}}
Eof == \A id \in DOMAIN s.ops : s.ops[id].res = "eof" => s.dir[s.ops[id].d].closed /\ s.dir[s.ops[id].d].q = <<>>
\* when nothing moves nobody waits for nothing
NotStuck == ~Busy(s) => \A id \in Pending(s) : ~s.ops[id].canceled /\ s.ops[id].kind # "close" /\ ~s.dir[s.ops[id].d].closed
=============================================================================
