------------------------------- MODULE Leaks -------------------------------
(* What the process holds because of what it was asked for: goroutines,      *)
(* descriptors, values of the application. Things begin, go through the      *)
(* phases of their kind and end, several at a time; an ended thing holds     *)
(* nothing, so that a process in which nothing is in progress is idle.       *)
EXTENDS Naturals, FiniteSets, TLC, Json

Step(p, do, q, ret) == [p |-> p, do |-> do, q |-> q, ret |-> ret]
\* the kinds of things, as what can be done with them in which phase: it leads to another phase, "" if it is over
Handled == {Step("", "begin", "open", "ok"), Step("open", "answer", "", "200"), Step("open", "panic", "", "gone"), Step("open", "hangup", "", "over")}
Failing == Handled \cup {Step("open", "fail", "", "500"), Step("", "bad", "", "400")}
Socket == {Step("", "begin", "open", "ok"), Step("open", "close", "", "over"), Step("open", "drop", "", "over"),
           Step("open", "fail", "", "over"), Step("open", "flood", "", "over"), Step("open", "empty", "", "over"), Step("", "refused", "", "403")}
Called == {Step("", "begin", "open", "ok"), Step("open", "answer", "", "ok"), Step("open", "status", "", "error"), Step("open", "hangup", "", "error"),
           Step("open", "cut", "", "error"), Step("open", "cancel", "", "error"), Step("", "unreachable", "", "error")}
\* what is in a collection, until it is taken out
Kept(outs) == {Step("", "begin", "kept", "ok")} \cup {Step("kept", o, "", "ok") : o \in outs}
Steps == [
  plain   |-> Handled,
  request |-> Failing \ {Step("", "bad", "", "400")},
  call    |-> Failing,
  \* a generic web socket; one whose context is not that of the request; one which calls methods
  socket  |-> Socket,
  own     |-> Socket,
  endless |-> Socket,
  rpc     |-> Socket \cup {Step("open", "bye", "", "over")},
  \* a channel of a web socket which stays open
  channel |-> {Step("", "begin", "open", "ok"), Step("open", "close", "", "close"), Step("open", "quit", "", "close"), Step("open", "again", "open", "ok"), Step("", "bad", "", "error")},
  get     |-> Called, post |-> Called, api |-> Called,
  \* a lock, held by somebody else: an attempt which waits, has failed, has succeeded
  lock    |-> {Step("", "begin", "waiting", "ok"), Step("waiting", "unlock", "owned", "true"), Step("owned", "unlock", "", "ok"),
               Step("waiting", "timeout", "left", "false"), Step("left", "unlock", "", "ok")},
  \* reading of something whose end is not in the power of the reader
  read    |-> {Step("", "begin", "open", "ok"), Step("open", "eof", "", "ok"), Step("open", "error", "", "error"), Step("open", "cancel", "left", "error"),
               Step("left", "eof", "", "ok"), Step("left", "error", "", "ok")},
  cancel  |-> {Step("", "begin", "open", "ok"), Step("open", "cancel", "", "ok"), Step("open", "parent", "", "ok")},
  timeout |-> {Step("", "begin", "open", "ok"), Step("open", "cancel", "", "ok"), Step("open", "parent", "", "ok"), Step("open", "expire", "", "ok")},
  span    |-> {Step("", "begin", "open", "ok"), Step("open", "cancel", "", "ok"), Step("open", "parent", "", "ok")},
  pipe    |-> {Step("", "begin", "open", "ok"), Step("open", "send", "", "ok"), Step("open", "close", "", "eof"), Step("open", "cancel", "", "error")},
  \* what is being fetched for a cache, and then kept in it or not
  fetch   |-> {Step("", "begin", "open", "ok"), Step("open", "answer", "kept", "ok"), Step("open", "shortlived", "", "ok"), Step("open", "error", "", "error"),
               Step("kept", "invalidate", "", "ok"), Step("kept", "evict", "", "ok")},
  lru     |-> Kept({"invalidate", "evict"}),
  mem     |-> Kept({"invalidate"}),
  map     |-> Kept({"delete", "take", "replace"}),
  set     |-> Kept({"delete"}),
  ordered |-> Kept({"delete", "replace"}),
  store   |-> Kept({"delete", "replace"})]
Kinds == DOMAIN Steps

CONSTANT MaxLive
VARIABLES st, act
vars == <<st, act>>
View == st
Live(s) == {k \in Kinds : s[k] # ""}
Idle(s) == Live(s) = {}
\* what the process holds which it did not when it was idle; of what is in progress nothing is said
Obs(s) == IF Idle(s) THEN "idle" ELSE "busy"

Init == st = [k \in Kinds |-> ""] /\ act = [op |-> "init"]
Do(k, s) == /\ st[k] = s.p
            /\ st' = [st EXCEPT ![k] = s.q]
            /\ Cardinality(Live(st')) <= MaxLive
            /\ act' = [op |-> "do", k |-> k, do |-> s.do, over |-> s.q = "", last |-> Idle(st'), ret |-> s.ret, obs |-> Obs(st')]
Next == \E k \in Kinds : \E s \in Steps[k] : Do(k, s)
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> st, t |-> st', a |-> act', l |-> TLCGet("level")]))

TypeOK == Cardinality(Live(st)) <= MaxLive
\* whatever is in progress can be ended, by what is done with it alone
Ends == \A k \in Live(st) : LET R[n \in Nat] == IF n = 0 THEN {st[k]} ELSE R[n - 1] \cup {s.q : s \in {s \in Steps[k] : s.p \in R[n - 1]}} IN "" \in R[2]
\* things do not end each other
Apart == [][\A k \in Kinds \ {act'.k} : st'[k] = st[k]]_vars
=============================================================================
