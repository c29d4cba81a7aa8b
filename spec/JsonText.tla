------------------------------ MODULE JsonText ------------------------------
(* What a JSON text denotes. A text is a sequence of code points, 1114112     *)
(* standing for a byte which is not UTF-8; it is read one at a time by Step,  *)
(* and Result is what it denotes should it end here: a tree, nothing for the  *)
(* empty text, or an error. Trees are [k, t, ks, xs]: t the digits of a       *)
(* number or the code points of a string, xs the elements, ks the keys of an  *)
(* object, in order.                                                          *)
EXTENDS Naturals, Sequences, SequencesExt, TLC
Invalid == 1114112
Replacement == 65533
Node(k, t, ks, xs) == [k |-> k, t |-> t, ks |-> ks, xs |-> xs]
Leaf(k) == Node(k, <<>>, <<>>, <<>>)

\* ------------------------------------------------------------- characters
Space == {9, 10, 13, 32}
Digit == 48..57
Hex == Digit \cup 65..70 \cup 97..102
HexVal(c) == IF c \in Digit THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Literals == [n |-> <<117, 108, 108>>, t |-> <<114, 117, 101>>, f |-> <<97, 108, 115, 101>>]  \* after their first letter
High(u) == u \in 55296..56319
Low(u) == u \in 56320..57343
Pair(h, l) == (h - 55296) * 1024 + (l - 56320) + 65536
Escapes == [c \in {34, 92, 47, 98, 102, 110, 114, 116} |->
             CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]

\* ------------------------------------------------------------- the keys of an object
RECURSIVE Before(_, _)
Before(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Before(Tail(a), Tail(b))
Object(ks, xs) == LET by == SortSeq([j \in DOMAIN ks |-> j], LAMBDA a, b : Before(ks[a], ks[b])) IN
                  Node("map", <<>>, [j \in DOMAIN ks |-> ks[by[j]]], [j \in DOMAIN xs |-> xs[by[j]]])

\* ------------------------------------------------------------- the reader
\* m: what is read; up: the containers which are open; buf: of the string or number; rest: of the literal or escape; hi: a high surrogate waiting for its other half
Start == [m |-> "first", up |-> <<>>, buf |-> <<>>, rest |-> <<>>, lit |-> "", hi |-> 0, key |-> FALSE, val |-> <<>>]
Bad == [Start EXCEPT !.m = "bad"]
Open(k) == [k |-> k, ks |-> <<>>, xs |-> <<>>, key |-> <<>>]
Put(top, v) == IF top.k = "list" THEN [top EXCEPT !.xs = Append(@, v)]
               ELSE IF \E j \in DOMAIN top.ks : top.ks[j] = top.key   \* the last one counts
                    THEN [top EXCEPT !.xs = [j \in DOMAIN @ |-> IF top.ks[j] = top.key THEN v ELSE @[j]]]
                    ELSE [top EXCEPT !.ks = Append(@, top.key), !.xs = Append(@, v)]
Attach(p, v) == LET q == [Start EXCEPT !.up = p.up] IN
                IF p.up = <<>> THEN [q EXCEPT !.m = "end", !.val = <<v>>]
                ELSE [q EXCEPT !.m = "after", !.up[Len(p.up)] = Put(@, v)]
Shut(p) == LET top == p.up[Len(p.up)] IN
           Attach([p EXCEPT !.up = SubSeq(@, 1, Len(@) - 1)],
                  IF top.k = "list" THEN Node("list", <<>>, <<>>, top.xs) ELSE Object(top.ks, top.xs))
Value(p, c) ==
  CASE c = 123 -> [p EXCEPT !.m = "key}", !.up = Append(@, Open("map"))]
    [] c = 91 -> [p EXCEPT !.m = "val]", !.up = Append(@, Open("list"))]
    [] c = 34 -> [p EXCEPT !.m = "str", !.buf = <<>>, !.key = FALSE]
    [] c = 45 -> [p EXCEPT !.m = "minus", !.buf = <<c>>]
    [] c = 48 -> [p EXCEPT !.m = "zero", !.buf = <<c>>]
    [] c \in 49..57 -> [p EXCEPT !.m = "int", !.buf = <<c>>]
    [] c = 110 -> [p EXCEPT !.m = "lit", !.rest = Literals.n, !.lit = "nil"]
    [] c = 116 -> [p EXCEPT !.m = "lit", !.rest = Literals.t, !.lit = "true"]
    [] c = 102 -> [p EXCEPT !.m = "lit", !.rest = Literals.f, !.lit = "false"]
    [] OTHER -> Bad
Top(p) == p.up[Len(p.up)].k
\* between the values
Plain(p, c) ==
  IF c \in Space THEN [p EXCEPT !.m = IF @ = "first" THEN "val" ELSE @]
  ELSE CASE p.m \in {"first", "val"} -> Value(p, c)
         [] p.m = "val]" -> IF c = 93 THEN Shut(p) ELSE Value(p, c)
         [] p.m \in {"key", "key}"} -> IF c = 34 THEN [p EXCEPT !.m = "str", !.buf = <<>>, !.key = TRUE]
                                       ELSE IF c = 125 /\ p.m = "key}" THEN Shut(p) ELSE Bad
         [] p.m = "colon" -> IF c = 58 THEN [p EXCEPT !.m = "val"] ELSE Bad
         [] p.m = "after" -> IF c = 44 THEN [p EXCEPT !.m = IF Top(p) = "list" THEN "val" ELSE "key"]
                             ELSE IF (c = 93 /\ Top(p) = "list") \/ (c = 125 /\ Top(p) = "map") THEN Shut(p) ELSE Bad
         [] OTHER -> Bad
\* in a number
Numeric(m, c) ==
  CASE m = "minus" -> IF c = 48 THEN "zero" ELSE IF c \in Digit THEN "int" ELSE ""
    [] m \in {"zero", "int"} -> IF m = "int" /\ c \in Digit THEN "int" ELSE IF c = 46 THEN "point" ELSE IF c \in {69, 101} THEN "e" ELSE ""
    [] m = "point" -> IF c \in Digit THEN "frac" ELSE ""
    [] m = "frac" -> IF c \in Digit THEN "frac" ELSE IF c \in {69, 101} THEN "e" ELSE ""
    [] m = "e" -> IF c \in {43, 45} THEN "sign" ELSE IF c \in Digit THEN "exp" ELSE ""
    [] OTHER -> IF c \in Digit THEN "exp" ELSE ""
Numbers == {"minus", "zero", "int", "point", "frac", "e", "sign", "exp"}
Whole == {"zero", "int", "frac", "exp"}
Done(p) == Attach(p, Node("num", p.buf, <<>>, <<>>))
\* in a string: a high surrogate without its other half is replaced
Flush(p) == IF p.hi = 0 THEN p ELSE [p EXCEPT !.buf = Append(@, Replacement), !.hi = 0]
Say(p, c) == LET q == Flush(p) IN [q EXCEPT !.m = "str", !.buf = Append(@, c)]
Unit(p, u) == IF p.hi # 0 /\ Low(u) THEN [p EXCEPT !.m = "str", !.buf = Append(@, Pair(p.hi, u)), !.hi = 0]
              ELSE IF High(u) THEN [Flush(p) EXCEPT !.m = "str", !.hi = u]
              ELSE Say(p, IF Low(u) THEN Replacement ELSE u)
Ended(p0) == LET p == Flush(p0) IN
             IF p.key THEN [p EXCEPT !.m = "colon", !.buf = <<>>, !.key = FALSE, !.up[Len(p.up)] = [@ EXCEPT !.key = p.buf]]
             ELSE Attach(p, Node("str", p.buf, <<>>, <<>>))
Step(p, c) ==
  CASE p.m = "bad" -> Bad
    [] p.m = "str" -> CASE c = 34 -> Ended(p) [] c = 92 -> [p EXCEPT !.m = "esc"] [] c < 32 -> Bad
                        [] OTHER -> Say(p, IF c = Invalid THEN Replacement ELSE c)
    [] p.m = "esc" -> CASE c \in DOMAIN Escapes -> Say(p, Escapes[c]) [] c = 117 -> [p EXCEPT !.m = "hex", !.rest = <<>>] [] OTHER -> Bad
    [] p.m = "hex" -> IF c \notin Hex THEN Bad
                      ELSE LET r == Append(p.rest, HexVal(c)) IN
                           IF Len(r) < 4 THEN [p EXCEPT !.rest = r]
                           ELSE Unit([p EXCEPT !.rest = <<>>], ((r[1] * 16 + r[2]) * 16 + r[3]) * 16 + r[4])
    [] p.m = "lit" -> IF c # p.rest[1] THEN Bad
                      ELSE IF Len(p.rest) = 1 THEN Attach(p, Leaf(p.lit)) ELSE [p EXCEPT !.rest = Tail(@)]
    [] p.m \in Numbers -> LET m == Numeric(p.m, c) IN
                          IF m # "" THEN [p EXCEPT !.m = m, !.buf = Append(@, c)]
                          ELSE IF p.m \in Whole THEN Plain(Done(p), c) ELSE Bad
    [] OTHER -> Plain(p, c)
Read(p, cs) == FoldLeft(Step, p, cs)

None == [is |-> "nothing", n |-> Leaf("nil")]
Error == [is |-> "error", n |-> Leaf("nil")]
Result(p) ==
  CASE p.m = "first" -> None
    [] p.m = "end" -> [is |-> "node", n |-> p.val[1]]
    [] p.m \in Whole /\ p.up = <<>> -> [is |-> "node", n |-> Done(p).val[1]]
    [] OTHER -> Error
Denotes(text) == Result(Read(Start, text))

\* ------------------------------------------------------------- a writer, for what the reader has to give back
RECURSIVE Write(_), Join(_)
Esc(c) == CASE c \in {34, 92} -> <<92, c>> [] c < 32 -> <<92, 117, 48, 48, 48 + (c \div 16), IF (c % 16) < 10 THEN 48 + (c % 16) ELSE 87 + (c % 16)>> [] OTHER -> <<c>>
Quote(t) == <<34>> \o FlattenSeq([j \in DOMAIN t |-> Esc(t[j])]) \o <<34>>
Join(parts) == IF parts = <<>> THEN <<>> ELSE IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o <<44>> \o Join(Tail(parts))
Write(n) ==
  CASE n.k = "nil" -> <<110>> \o Literals.n [] n.k = "true" -> <<116>> \o Literals.t [] n.k = "false" -> <<102>> \o Literals.f
    [] n.k = "num" -> n.t [] n.k = "str" -> Quote(n.t)
    [] n.k = "list" -> <<91>> \o Join([j \in DOMAIN n.xs |-> Write(n.xs[j])]) \o <<93>>
    [] OTHER -> <<123>> \o Join([j \in DOMAIN n.xs |-> Quote(n.ks[j]) \o <<58>> \o Write(n.xs[j])]) \o <<125>>
=============================================================================
