---------------------------- MODULE HttpClientMC ----------------------------
EXTENDS HttpClient, Json
CONSTANTS MaxOpen
VARIABLES open, act
View == open
Hows == {"full", "chunked", "short", "slow", "hang", "reset", "redirect"}
Ops == {"get", "post", "api", "apibase", "do", "nourl"}
Plans == {P(st, how, b) : st \in Statuses, how \in Hows, b \in Bodies}
Kind(op) == IF op = "apibase" THEN "api" ELSE op
Init == open = 0 /\ act = [op |-> "init"]
Call(op, p, cx) ==
  LET k == Kind(op)
      f == Fails(p, cx)
      r == IF k = "do" THEN (IF f.ok \/ f.code # 0 \/ p.how = "short" THEN [st |-> p.st, ok |-> p.st \in Good, code |-> IF p.st \in Good THEN 0 ELSE p.st] ELSE f) ELSE Result(k, p, cx) IN
  /\ open' = open + (IF Opens(k, p, cx) THEN 1 ELSE 0) /\ open' <= MaxOpen
  /\ act' = [op |-> op, plan |-> p, cx |-> cx, ret |-> [res |-> r, seen |-> Seen(k, p, cx)], obs |-> [open |-> open']]
\* reading the body of an earlier response to its end, or not, and closing it
Close(all) == open > 0 /\ open' = open - 1 /\ act' = [op |-> "close", all |-> all, ret |-> "ok", obs |-> [open |-> open']]
Next == (\E op \in Ops, p \in Plans, cx \in {"live", "before", "during", "deadline"} : Sensible(Kind(op), p, cx) /\ Call(op, p, cx)) \/ \E all \in BOOLEAN : Close(all)
Spec == Init /\ [][Next]_<<open, act>>
Emit == PrintT(ToJson([f |-> open, t |-> open', a |-> act', l |-> TLCGet("level")]))
\* only what the caller has to close is left open
Released == [][act'.op \notin {"do", "close"} => open' = open]_<<open, act>>
\* an error never comes with outputs, and a status which is not good is always an error which tells it
Told == \A op \in {"get", "post", "api"}, p \in Plans : Sensible(op, p, "live") /\ p.st \notin Good => LET r == Result(op, p, "live") IN ~r.ok /\ r.code = p.st
ASSUME Told
=============================================================================
