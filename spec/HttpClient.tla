----------------------------- MODULE HttpClient -----------------------------
(* Calls of the HTTP client (package http): what a call returns for what the  *)
(* server does, what the server gets to see, and the bodies left open.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* what the server does: a status, how the response comes, what the body holds
P(st, how, body) == [st |-> st, how |-> how, body |-> body]
Good == {200, 204}
Statuses == {200, 201, 202, 204, 304, 400, 401, 404, 418, 500, 503}
\* bodies: "object" has every output, "list", "digit", "broken" and "wrong" (an output of another type) are no answer to an API call,
\* "extra" also has inputs and unknown fields, "part" only some of the outputs
Bodies == {"none", "text", "object", "list", "digit", "broken", "wrong", "extra", "part", "big"}
BodyOf(p) == IF p.st \in {204, 304} THEN "none" ELSE p.body

\* how the call ends: its context is live, cancelled before, or while the server keeps it waiting
Waits(p) == p.how = "hang" \/ (p.how = "slow" /\ p.st = 200)
Fail(code, cause) == [ok |-> FALSE, code |-> code, cause |-> cause]
\* the part which does not depend on the kind of call
Fails(p, cx) ==
  IF cx = "before" THEN Fail(0, "canceled")
  ELSE IF p.how = "reset" THEN Fail(0, "")
  ELSE IF Waits(p) THEN Fail(0, IF cx = "during" THEN "canceled" ELSE "deadline")
  ELSE IF p.st \notin Good THEN Fail(p.st, "")
  ELSE IF p.how = "short" THEN Fail(0, "")
  ELSE [ok |-> TRUE]
\* get and post give the bytes; an api call sets the outputs it got
Understood(b) == b \in {"none", "object", "extra", "part"}
Result(op, p, cx) ==
  LET f == Fails(p, cx) IN
  IF op = "nourl" THEN Fail(0, "") @@ [out |-> "kept"]
  ELSE IF op = "api"
  THEN IF ~f.ok THEN f @@ [out |-> "kept"]
       ELSE IF p.st = 204 \/ BodyOf(p) = "none" THEN [ok |-> TRUE, out |-> "kept"]
       ELSE IF ~Understood(BodyOf(p)) THEN Fail(0, "") @@ [out |-> IF BodyOf(p) = "wrong" THEN "any" ELSE "kept"]
       ELSE [ok |-> TRUE, out |-> IF BodyOf(p) = "part" THEN "part" ELSE "set"]
  ELSE IF ~f.ok THEN f ELSE [ok |-> TRUE, body |-> BodyOf(p)]
\* what the server gets: nothing, or exactly the request; a connection which is reset may have been tried again, a deadline may be over before
Seen(op, p, cx) == IF cx = "before" \/ op = "nourl" THEN "nothing" ELSE IF p.how = "reset" \/ cx = "deadline" THEN "any" ELSE "the request"
\* after do, the caller has to close the body
Opens(op, p, cx) == op = "do" /\ cx # "before" /\ p.how # "reset" /\ ~(p.how = "hang")
\* the combinations which make sense
Sensible(op, p, cx) ==
  /\ p.st \in {204, 304} => p.how \in {"full", "redirect"} /\ p.body = "none"
  /\ p.how \in {"short", "slow"} => p.body \in {"text", "object", "big"}
  /\ p.how \in {"hang", "reset"} => p.st = 200 /\ p.body = "none"
  /\ cx \in {"during", "deadline"} <=> Waits(p)
  /\ cx = "before" => p.how = "full" /\ p.st \in {200, 500}
  /\ op = "nourl" => p = P(200, "full", "none") /\ cx = "live"
  /\ op = "do" => cx \in {"live", "before"} /\ ~Waits(p)
=============================================================================
