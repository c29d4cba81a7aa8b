-------------------------------- MODULE Http --------------------------------
(* What a client of the HTTP server receives, for every outcome of a handler. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
\* Codings a client lists: <<[n |-> name, q |-> weight in thousandths]>>
Accepts(enc) == \E j \in DOMAIN enc : enc[j].q > 0 /\ (enc[j].n = "gzip" \/ (enc[j].n = "*" /\ \A k \in DOMAIN enc : enc[k].n # "gzip"))
Res(status, body, gz, json) == [status |-> status, body |-> body, gz |-> gz, json |-> json]
\* compression is allowed, never required
Gz(enc) == IF Accepts(enc) THEN {TRUE, FALSE} ELSE {FALSE}
\* an outcome: [err |-> FALSE, size |-> bytes produced] or [err |-> TRUE, code |-> 0 for none]
Status(code) == IF code = 0 THEN 500 ELSE code
\* the text of an error is told to the client (with the tracking identifier) below 500 only
ErrorRes(o) == IF Status(o.code) < 500 THEN Res(Status(o.code), "error", FALSE, FALSE) ELSE Res(Status(o.code), "hidden", FALSE, FALSE)
Request(o, enc) == IF o.err THEN {ErrorRes(o)}
                   ELSE IF o.size = 0 THEN {Res(204, "none", FALSE, FALSE)}
                   ELSE {Res(200, "exact", g, TRUE) : g \in Gz(enc)}
\* the low level handler is not about JSON, nothing is said about the body of errors but that they are not leaked
Call(o, enc) == IF o.err THEN {Res(Status(o.code), "any", FALSE, FALSE)}
                ELSE IF o.size = 0 THEN {Res(204, "none", FALSE, FALSE)}
                ELSE {Res(200, "exact", g, FALSE) : g \in Gz(enc)}
\* an operation registered as an API: bodies it can be decoded from, and others
Good == {"valid", "extra", "spaces", "reorder"}
Bad == {"empty", "digit", "letter", "brace", "space", "null", "array", "string", "number", "true", "cut", "comma", "garbage", "missing", "zero", "type", "type2", "nested", "trailing", "bom", "binary", "nan", "two",
        "chunk", "short"} \* these two are broken already as HTTP
ApiRes == [status |-> 400, ran |-> FALSE, body |-> "any"]
Api(b, o) == IF b \in Bad THEN ApiRes
             ELSE IF o.err THEN [status |-> Status(o.code), ran |-> TRUE, body |-> ErrorRes(o).body]
             ELSE [status |-> 200, ran |-> TRUE, body |-> "exact"]

CONSTANTS Sizes, Codes, Kinds
VARIABLES st, act
vars == <<st, act>>
View == st
\* the readiness code is all the state there is
Init == st = 204 /\ act = [op |-> "init"]
Encs == {<<>>, <<[n |-> "gzip", q |-> 1000]>>, <<[n |-> "gzip", q |-> 0]>>, <<[n |-> "identity", q |-> 1000]>>, <<[n |-> "br", q |-> 1000]>>, <<[n |-> "x-gzip-not", q |-> 1000]>>,
         <<[n |-> "br", q |-> 1000], [n |-> "gzip", q |-> 500]>>, <<[n |-> "*", q |-> 1000]>>, <<[n |-> "*", q |-> 1000], [n |-> "gzip", q |-> 0]>>, <<[n |-> "deflate", q |-> 900], [n |-> "gzip", q |-> 800], [n |-> "*", q |-> 0]>>}
Outs == [err : {FALSE}, size : Sizes, kind : {""}]
\* the same error, made in different ways; a plain one has no code
Errs == {[err |-> TRUE, code |-> c, kind |-> k] : c \in Codes \cup {0}, k \in Kinds} \ {[err |-> TRUE, code |-> c, kind |-> "plain"] : c \in Codes}
Mime == {"none", "gzip"} \* an Accept header which mentions gzip says nothing about encodings
Handle == \E h \in {"request", "call"}, o \in Outs, e \in Encs, m \in Mime : \E r \in IF h = "request" THEN Request(o, e) ELSE Call(o, e) :
            act' = [op |-> h, out |-> o, enc |-> e, mime |-> m, ret |-> r] /\ UNCHANGED st
Fail == \E h \in {"request", "call"}, o \in Errs : \E r \in IF h = "request" THEN Request(o, <<>>) ELSE Call(o, <<>>) :
            act' = [op |-> h, out |-> o, enc |-> <<>>, mime |-> "none", ret |-> r] /\ UNCHANGED st
Operation == \E b \in Good \cup Bad, o \in {[err |-> FALSE, size |-> 1, kind |-> ""]} \cup {x \in Errs : x.code \in {0, 403, 503}}
                                            \cup {[err |-> TRUE, code |-> 0, kind |-> "unfit"]} : \* what it returns can't be sent
            act' = [op |-> "api", body |-> b, out |-> o, ret |-> Api(b, o)] /\ UNCHANGED st
\* the method says nothing about what is answered
Methods == {"GET", "PUT", "DELETE", "PATCH", "OPTIONS", "PURGE"}
Method == \E h \in {"request", "call"}, m \in Methods, o \in {[err |-> FALSE, size |-> n, kind |-> ""] : n \in {0, 1}} \cup {x \in Errs : x.code \in {403, 503}} :
            \E r \in IF h = "request" THEN Request(o, <<>>) ELSE Call(o, <<>>) :
            act' = [op |-> h, method |-> m, out |-> o, enc |-> <<>>, mime |-> "none", ret |-> r] /\ UNCHANGED st
\* a body which can't be read to its end, or not in time, never gets to the handler
Unreadable == \E h \in {"request", "call", "timed"}, b \in {"chunk", "short", "stall"} :
            /\ b = "stall" => h = "timed"
            /\ act' = [op |-> "unreadable", handler |-> h, body |-> b, ret |-> [status |-> 400, ran |-> FALSE]] /\ UNCHANGED st
Probe == \/ act' = [op |-> "live", ret |-> 204] /\ UNCHANGED st
         \/ act' = [op |-> "ready", ret |-> st] /\ UNCHANGED st
         \/ act' = [op |-> "unknown", ret |-> 404] /\ UNCHANGED st
         \/ \E c \in {200, 204, 404, 500, 503} : st' = c /\ act' = [op |-> "setready", c |-> c, ret |-> 0]
Next == Handle \/ Fail \/ Method \/ Unreadable \/ Operation \/ Probe
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> [s |-> st], t |-> [s |-> st'], a |-> act', l |-> TLCGet("level")]))
IsRes == act'.op \in {"request", "call"}
NoLeak == [][(IsRes /\ act'.ret.status >= 500) => act'.ret.body \in {"hidden", "any"}]_vars
NoUndecodable == [][(act'.op = "api" /\ act'.body \in Bad) => ~act'.ret.ran /\ act'.ret.status \in 400..499]_vars
=============================================================================
