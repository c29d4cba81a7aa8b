------------------------------- MODULE Config -------------------------------
(* Loading a configuration: which text each field gets, and what it becomes.  *)
(* A text is a list of parts, joined by commas; a part is k or k=v.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
A(k) == [k |-> k, eq |-> FALSE, v |-> ""]
KV(k, v) == [k |-> k, eq |-> TRUE, v |-> v]
Part(p) == IF p.eq THEN p.k \o "=" \o p.v ELSE p.k
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
Text(t) == Join([j \in DOMAIN t |-> Part(t[j])], ",")

True == {"true", "1", "yes", "y", "TRUE", "Yes"}
False_ == {"", "false", "0", "no", "n", "NO"}
Ints == ("1" :> "1") @@ ("0" :> "0") @@ ("-5" :> "-5") @@ ("+7" :> "7") @@ ("007" :> "7") @@ ("2147483648" :> "2147483648")
No == [ok |-> FALSE, v |-> ""]
Yes(v) == [ok |-> TRUE, v |-> v]
\* one value, from one piece of text
Atom(t, s) ==
  CASE t = "bool" -> IF s \in True THEN Yes("true") ELSE IF s \in False_ THEN Yes("false") ELSE No
    [] t = "int" -> IF s \in DOMAIN Ints THEN Yes(Ints[s]) ELSE No
    [] t = "string" -> Yes(s)
    \* types which convert themselves refuse "bad"
    [] t = "self" -> IF s = "bad" THEN No ELSE Yes("T(" \o s \o ")")
    [] OTHER -> No
Types == [bool |-> [k |-> "one", of |-> "bool"], nbool |-> [k |-> "one", of |-> "bool"],
          int |-> [k |-> "one", of |-> "int"], nint |-> [k |-> "one", of |-> "int"],
          string |-> [k |-> "one", of |-> "string"], nstring |-> [k |-> "one", of |-> "string"],
          text |-> [k |-> "one", of |-> "self"], json |-> [k |-> "one", of |-> "self"], own |-> [k |-> "one", of |-> "self"],
          strings |-> [k |-> "list", of |-> "string"], ints |-> [k |-> "list", of |-> "int"], bools |-> [k |-> "list", of |-> "bool"],
          nints |-> [k |-> "list", of |-> "int"], texts |-> [k |-> "list", of |-> "self"],
          mstring |-> [k |-> "map", of |-> "string"], mint |-> [k |-> "map", of |-> "int"], mbool |-> [k |-> "map", of |-> "bool"],
          mnkey |-> [k |-> "map", of |-> "string"],
          float |-> [k |-> "no", of |-> ""], uint |-> [k |-> "no", of |-> ""], int64 |-> [k |-> "no", of |-> ""], struct |-> [k |-> "no", of |-> ""],
          ptr |-> [k |-> "no", of |-> ""], chan |-> [k |-> "no", of |-> ""], array |-> [k |-> "no", of |-> ""], iface |-> [k |-> "no", of |-> ""],
          floats |-> [k |-> "list", of |-> "no"], mfloat |-> [k |-> "map", of |-> "no"], mikey |-> [k |-> "no", of |-> ""],
          hidden |-> [k |-> "no", of |-> ""]]
\* the initial values given by the caller
Initial == [t \in DOMAIN Types |-> LET x == Types[t] IN
  CASE x.k = "one" -> (CASE x.of = "bool" -> "true" [] x.of = "int" -> "42" [] x.of = "self" -> "T(init)" [] OTHER -> "init")
    [] x.k = "list" -> (CASE x.of = "string" -> "[init]" [] x.of = "int" -> "[42]" [] x.of = "bool" -> "[true]" [] x.of = "self" -> "[T(init)]" [] OTHER -> "[1.5]")
    [] x.k = "map" -> (CASE x.of = "string" -> "{i:init}" [] x.of = "int" -> "{i:42}" [] x.of = "bool" -> "{i:true}" [] OTHER -> "{i:1.5}")
    [] OTHER -> "init"]
\* the last one counts when a key is repeated; keys are shown in order
Keys(t) == {t[j].k : j \in DOMAIN t}
LastOf(t, k) == t[CHOOSE j \in DOMAIN t : t[j].k = k /\ \A i \in j + 1..Len(t) : t[i].k # k]
Order == <<"", " ", " 1", "+7", "-5", "0", "007", "0x10", "1", "1.5", "2147483648", "99999999999999999999", "NO", "TRUE", "a", "b", "bad", "c", "n", "off", "ok", "on", "t", "true ", "yes">>
Conv(type, t) == LET x == Types[type]  txt == Text(t)
                     es == [j \in DOMAIN t |-> Atom(x.of, Part(t[j]))]
                     vs == [j \in DOMAIN t |-> Atom(x.of, t[j].v)] IN
  CASE x.k = "one" -> Atom(x.of, txt)
    [] x.k = "list" -> IF txt = "" THEN Yes("[]") ELSE IF \A j \in DOMAIN es : es[j].ok THEN Yes("[" \o Join([j \in DOMAIN es |-> es[j].v], "|") \o "]") ELSE No
    [] x.k = "map" -> IF txt = "" THEN Yes("{}") ELSE IF \A j \in DOMAIN vs : vs[j].ok
                      THEN LET ks == SelectSeq(Order, LAMBDA k : k \in Keys(t)) IN
                           Yes("{" \o Join([j \in DOMAIN ks |-> ks[j] \o ":" \o Atom(x.of, LastOf(t, ks[j]).v).v], "|") \o "}") ELSE No
    [] OTHER -> No
\* a field: its type, its tag (none, plain, def, bogus, late), and its default, a text
Field(f, lookup) ==
  CASE f.tag = "none" -> Yes(Initial[f.t])
    [] f.tag \in {"bogus", "late"} -> No
    [] Text(lookup) # "" -> Conv(f.t, lookup)
    [] f.tag = "plain" -> No
    [] OTHER -> Conv(f.t, f.def)
Load(fs, lookups) == LET r == [j \in DOMAIN fs |-> Field(fs[j], lookups[j])] IN
  IF \A j \in DOMAIN r : r[j].ok THEN [ok |-> TRUE, vals |-> [j \in DOMAIN r |-> r[j].v]] ELSE [ok |-> FALSE, vals |-> <<>>]

\* single fields: every type, tag and text
CONSTANTS Texts, Defaults
VARIABLES st, act
vars == <<st, act>>
View == st
Init == st = "x" /\ act = [op |-> "init"]
\* no text at all is not defined for the types which convert themselves, and for elements of no type
Defined(t, x) == Types[t].of \in {"self", "no"} => Text(x) # "" /\ \A j \in DOMAIN x : Part(x[j]) # ""
Next == \E t \in DOMAIN Types, tag \in {"none", "plain", "def", "bogus", "late"}, x \in Texts, d \in Defaults :
  /\ (tag # "def") => d = <<>>
  /\ (Text(x) = "" /\ tag = "def") => Defined(t, d)
  /\ Text(x) # "" => Defined(t, x)
  /\ (tag = "none") => t # "hidden"
  /\ UNCHANGED st
  /\ act' = [op |-> "load", t |-> t, tag |-> tag, text |-> Text(x), def |-> Text(d), ret |-> Load(<<[t |-> t, tag |-> tag, def |-> d]>>, <<x>>)]
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> [s |-> st], t |-> [s |-> st'], a |-> act', l |-> TLCGet("level")]))
MCTexts == {<<>>, <<A("1")>>, <<A("0")>>, <<A("-5")>>, <<A("+7")>>, <<A("007")>>, <<A("2147483648")>>, <<A("99999999999999999999")>>, <<A("a")>>, <<A(" 1")>>, <<A(" ")>>, <<A("on")>>, <<A("off")>>, <<A("t")>>, <<A("true ")>>, <<A("1"), A(" ")>>, <<KV("a", " ")>>, <<A("1.5")>>, <<A("0x10")>>,
            <<A("yes")>>, <<A("TRUE")>>, <<A("NO")>>, <<A("n")>>, <<A("ok")>>, <<A("bad")>>, <<A(""), A("")>>, <<A("1"), A("0")>>, <<A("1"), A("a")>>, <<A("1"), A("bad")>>, <<A("a"), A("b"), A("c")>>,
            <<KV("a", "1")>>, <<KV("a", "1"), KV("b", "0")>>, <<KV("a", "1"), KV("a", "0")>>, <<KV("a", "x=y")>>, <<KV("a", ""), KV("b", "1")>>, <<KV("b", "1"), KV("a", "no")>>, <<KV("a", "1"), A("b")>>}
MCDefaults == {<<>>, <<A("1")>>, <<A("a")>>, <<A("bad")>>, <<KV("a", "1")>>}
\* an error or a value for every field; the lookup wins over the default
Total == [][act'.op = "load" => act'.ret.ok \in BOOLEAN /\ (act'.ret.ok => Len(act'.ret.vals) = 1)]_vars
=============================================================================
