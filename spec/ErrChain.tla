------------------------------ MODULE ErrChain ------------------------------
(* Errors as trees of layers (package ctx). A node is an error somebody made: *)
(* leaves, layers of fmt or errors, and layers of ctx, which add an origin    *)
(* record (stack and context) unless there is one below already.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxNodes
VARIABLES es, act
vars == <<es, act>>
View == es
\* kind: leaf, custom (a leaf of a type of its own), same (given back as it was),
\* wrap (a new origin), newf (origin and formatted text), text (formatted text only), nil
Node(kind, ch, t) == [kind |-> kind, ch |-> ch, t |-> t]

RECURSIVE Real(_, _), Pre(_, _), Flat(_)
Real(s, n) == IF s[n].kind = "same" THEN Real(s, s[n].ch[1]) ELSE n
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* depth first, parents first: the order in which errors are looked for
Pre(s, n) == LET r == Real(s, n) IN <<r>> \o Flat([j \in DOMAIN s[r].ch |-> Pre(s, s[r].ch[j])])
In(s, n) == {Pre(s, n)[j] : j \in DOMAIN Pre(s, n)}
IsOrigin(s, m) == s[m].kind \in {"wrap", "newf"}
IsNil(s, n) == s[Real(s, n)].kind = "nil"
First(seq, P(_)) == LET js == {j \in DOMAIN seq : P(seq[j])} IN IF js = {} THEN 0 ELSE seq[CHOOSE j \in js : \A k \in js : j <= k]
Origin(s, n) == First(Pre(s, n), LAMBDA m : IsOrigin(s, m))
Origins(s, n) == Cardinality({m \in In(s, n) : IsOrigin(s, m)})
RECURSIVE Text(_, _)
T(m) == "n" \o ToString(m)
Text(s, n) == LET m == Real(s, n)  c == s[m].ch IN
  CASE s[m].kind \in {"leaf", "custom"} -> T(m)
    [] s[m].kind = "nil" -> "nil"
    [] s[m].kind = "wrap" -> Text(s, c[1])
    [] OTHER -> s[m].t
Look(s, n) == [origin |-> Origin(s, n), origins |-> Origins(s, n), text |-> Text(s, n),
               is |-> [m \in DOMAIN s |-> ~IsNil(s, n) /\ ~IsNil(s, m) /\ Real(s, m) \in In(s, n)],
               as |-> First(Pre(s, n), LAMBDA m : s[m].kind = "custom")]
LookAll(s) == [n \in DOMAIN s |-> Look(s, n)]

Init == es = <<>> /\ act = [op |-> "init"]
NewF(s, ch, t) == \* formatted with the given errors wrapped
  Node(IF \E j \in DOMAIN ch : Origin(s, ch[j]) # 0 THEN "layer" ELSE "newf", ch, t)
One(s, p) == T(Len(s) + 1) \o "(" \o Text(s, p) \o ")"
Two(s, p, q) == T(Len(s) + 1) \o "(" \o Text(s, p) \o "," \o Text(s, q) \o ")"
Make(s, op, p, q) ==
  CASE op \in {"leaf", "custom"} -> Node(op, <<>>, "")
    [] op = "wrapnil" -> Node("nil", <<>>, "")
    [] op = "wrap" -> Node(IF Origin(s, p) # 0 THEN "same" ELSE "wrap", <<p>>, "")
    [] op = "newf" -> NewF(s, <<p>>, One(s, p))
    [] op = "newv" -> Node("newf", <<>>, One(s, p))
    [] op = "fmt" -> Node("layer", <<p>>, One(s, p))
    [] op = "newf2" -> NewF(s, <<p, q>>, Two(s, p, q))
    [] op = "join" -> Node("layer", <<p, q>>, Two(s, p, q))
Arity(op) == IF op \in {"leaf", "custom", "wrapnil"} THEN 0 ELSE IF op \in {"newf2", "join"} THEN 2 ELSE 1
Ops == {"leaf", "custom", "wrapnil", "wrap", "newf", "newv", "fmt", "newf2", "join"}
Arg(s, on) == IF on THEN {p \in DOMAIN s : ~IsNil(s, p)} ELSE {0}
Next == Len(es) < MaxNodes /\ \E op \in Ops : \E p \in Arg(es, Arity(op) > 0), q \in Arg(es, Arity(op) > 1) :
  es' = Append(es, Make(es, op, p, q)) /\ act' = [op |-> op, p |-> p, q |-> q, ret |-> "ok", obs |-> LookAll(es')]
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> [e |-> es], t |-> [e |-> es'], a |-> act', l |-> TLCGet("level")]))

\* a layer over errors with an origin adds none: chains have at most one, trees those of their branches
OneOrigin == \A n \in DOMAIN es : IsOrigin(es, n) => Origins(es, n) = 1
Kept == [][\A n \in DOMAIN es : Look(es', n).origin = Look(es, n).origin /\ Look(es', n).text = Look(es, n).text]_vars
Below == \A n \in DOMAIN es : \A j \in DOMAIN es[n].ch : (Origin(es, es[n].ch[j]) # 0) => Origin(es, n) # 0
\* what was wrapped is found in every later layer
Found == \A n \in DOMAIN es : \A j \in DOMAIN es[n].ch : \A m \in DOMAIN es : Look(es, es[n].ch[j]).is[m] => Look(es, n).is[m]
=============================================================================
