----------------------------- MODULE JsonTextMC -----------------------------
(* Every text which something can follow, up to a length, one character at a  *)
(* time; the observation at each is what the text denotes, and which           *)
(* characters after it make a whole text.                                     *)
EXTENDS JsonText, FiniteSets, Json
CONSTANTS MaxLen
VARIABLES p, t, n, act   \* the reader, what it has read, how much of it beyond where it started
vars == <<p, t, n, act>>
View == <<t, n>>
\* { } [ ] , : " \ blank newline - + . 0 1 7 e a n t f u l r s, a control, é, an emoji, no UTF-8
Alphabet == <<123, 125, 91, 93, 44, 58, 34, 92, 32, 10, 45, 43, 46, 48, 49, 55, 101, 97, 110, 116, 102, 117, 108, 114, 115, 1, 233, 128512, Invalid>>
\* what is worth following in a string, of which every character is a part
Follow(q) == CASE q.m = "str" -> {34, 92, 97, 233, Invalid} [] q.m = "esc" -> {34, 110, 117} [] q.m = "hex" -> {48, 49} [] OTHER -> {Alphabet[j] : j \in DOMAIN Alphabet} \ {55}
May(q, c) == IF Result(Step(q, c)).is = "node" THEN "whole" ELSE "error"
Obs(q) == [res |-> Result(q), next |-> [j \in DOMAIN Alphabet |-> May(q, Alphabet[j])]]
\* where to start from: [[ {"a": [{"a":1, {"a":1,"a": "\ud83 "\ud83d \ud83d\ude0 -1. 1e [1,{"": and a text which is whole
Seeds == { <<>>, <<91, 91>>, <<123, 34, 97, 34, 58>>, <<91, 123, 34, 97, 34, 58, 49, 44>>, <<123, 34, 97, 34, 58, 49, 44, 34, 97, 34, 58>>,
           <<34, 92, 117, 100, 56, 51>>, <<34, 92, 117, 100, 56, 51, 100>>, <<34, 92, 117, 68, 56, 51, 68, 92, 117, 100, 101, 48>>, <<34, 92, 117, 100, 101, 48, 48>>,
           <<45, 49, 46>>, <<49, 101>>, <<91, 49, 44, 123, 34, 34, 58>>, <<91, 110, 117, 108, 108, 44, 34, 97, 34, 93, 10>>,
           <<123, 34, 97, 110, 34, 58, 91, 93, 44, 34, 97, 34, 58, 123, 125, 44, 34, 34, 58, 49, 46, 53, 44, 34, 92, 110, 34, 58>> }
Init == t \in Seeds /\ p = Read(Start, t) /\ n = 0 /\ act = [op |-> "init"]
Next == /\ n < IF Len(t) = n THEN MaxLen ELSE MaxLen - 2
        /\ \E c \in Follow(p) : /\ Step(p, c).m # "bad"
                                /\ p' = Step(p, c) /\ t' = Append(t, c) /\ n' = n + 1
                                /\ act' = [op |-> "text", text |-> t', ret |-> "", obs |-> Obs(p')]
Spec == Init /\ [][Next]_vars
\* each text is a case of its own
Emit == PrintT(ToJson([f |-> [x |-> 0], t |-> [x |-> 0], a |-> act', l |-> 1]))
\* writing what a text denotes and reading it again gives the same, and whatever is incomplete can be completed
RoundTrip == LET r == Result(p) IN r.is = "node" => Denotes(Write(r.n)) = r
\* keys are in order and each is there once
RECURSIVE Ordered(_)
Ordered(x) == /\ \A j \in 1..Len(x.ks) - 1 : Before(x.ks[j], x.ks[j + 1])
              /\ (x.k = "map" => Len(x.ks) = Len(x.xs)) /\ \A j \in DOMAIN x.xs : Ordered(x.xs[j])
Keys == LET r == Result(p) IN Ordered(r.n)
\* a whole text stays whole with a blank after it, and a second value is never accepted
Single == Result(p).is = "node" => /\ Result(Step(p, 32)) = Result(p)
                                   /\ \A c \in {123, 91, 34, 110} : Step(Step(p, 32), c).m = "bad"
\* an open container is closed by what belongs to it
Closing == p.m = "after" => LET c == IF Top(p) = "list" THEN 93 ELSE 125 IN Len(Step(p, c).up) = Len(p.up) - 1 /\ Step(p, 218 - c).m = "bad"
=============================================================================
