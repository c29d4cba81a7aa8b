------------------------------ MODULE Buffered ------------------------------
(* The buffered stream used by tests: bytes appended to it are read in order,  *)
(* a read waits for bytes or for the close.                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Empty == [q |-> <<>>, closed |-> FALSE, written |-> <<>>, ops |-> <<>>]
\* pending: [kind, n, b]; res: [r |-> "pend" | "ok" | "eof" | "closed" | "bytes", b |-> what was read]
Pend == [r |-> "pend", b |-> <<>>]
Start(s, kind, n, b) == [s EXCEPT !.ops = Append(@, [kind |-> kind, n |-> n, b |-> b, res |-> Pend])]
Pending(s) == {id \in DOMAIN s.ops : s.ops[id].res = Pend}
Res(s, id, r, b) == [s EXCEPT !.ops[id].res = [r |-> r, b |-> b]]
Min(a, b) == IF a < b THEN a ELSE b
Commit(s, id) == LET o == s.ops[id] IN
  CASE o.kind = "append" -> {Res([s EXCEPT !.q = @ \o o.b], id, "ok", <<>>)}
    [] o.kind \in {"close", "setclosed"} -> {Res([s EXCEPT !.closed = TRUE], id, r, <<>>) : r \in IF s.closed /\ o.kind = "close" THEN {"ok", "closed"} ELSE {"ok"}}
    [] o.kind = "write" -> IF o.b = <<>> THEN {Res(s, id, "ok", <<>>)} ELSE IF s.closed THEN {Res(s, id, "closed", <<>>)} ELSE {Res([s EXCEPT !.written = Append(@, o.b)], id, "ok", <<>>)}
    [] o.kind = "read" ->
         IF o.n = 0 THEN {IF s.closed /\ s.q = <<>> THEN Res(s, id, "eof", <<>>) ELSE Res(s, id, "bytes", <<>>)}
         ELSE IF s.q # <<>> THEN {Res([s EXCEPT !.q = SubSeq(@, k + 1, Len(@))], id, "bytes", SubSeq(s.q, 1, k)) : k \in 1..Min(o.n, Len(s.q))}
         ELSE IF s.closed THEN {Res(s, id, "eof", <<>>)} ELSE {}
Busy(s) == \E id \in Pending(s) : Commit(s, id) # {}
CONSTANTS MaxOps
VARIABLES s, got
Init == s = Empty /\ got = <<>>
Next == \/ \E id \in Pending(s) : \E t \in Commit(s, id) : s' = t /\ got' = got \o t.ops[id].res.b
        \/ /\ Len(s.ops) < MaxOps /\ UNCHANGED got
           /\ \/ ~s.closed /\ s' = Start(s, "append", 0, <<Len(s.ops) + 1, Len(s.ops) + 101>>)
              \/ \E n \in 0..2 : s' = Start(s, "read", n, <<>>)
              \/ s' = Start(s, "close", 0, <<>>)
Spec == Init /\ [][Next]_<<s, got>>
\* in order, nothing twice, end of file only once drained
InOrder == \A a, b \in DOMAIN got : a # b => got[a] # got[b]
Eof == \A id \in DOMAIN s.ops : s.ops[id].res.r = "eof" => s.closed
NotStuck == ~Busy(s) => \A id \in Pending(s) : ~s.closed /\ s.q = <<>> /\ s.ops[id].kind = "read"
=============================================================================
