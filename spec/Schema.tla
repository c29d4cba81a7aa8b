------------------------------- MODULE Schema -------------------------------
(* The schemas of the OpenAPI document. Types are terms; a schema describes   *)
(* the values of a type as they are sent: whatever is sent fits the schema,   *)
(* and the schema promises nothing which is never sent.                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* ---- types
T(k, e, fs, n) == [k |-> k, e |-> e, fs |-> fs, n |-> n]
B(k) == T(k, <<>>, <<>>, "")
Slice(t) == T("slice", <<t>>, <<>>, "")
Array(t) == T("array", <<t>>, <<>>, "")
Map(t) == T("map", <<t>>, <<>>, "")
IMap(t) == T("imap", <<t>>, <<>>, "")    \* with integer keys
Ptr(t) == T("ptr", <<t>>, <<>>, "")
Anon(fs) == T("anon", <<>>, fs, "")
Named(n) == T("named", <<>>, <<>>, n)
\* a field: its name in Go, the name and the options of the json tag, whether it is exported, its documentation and example
F(n, tag, t) == [n |-> n, tag |-> tag, ex |-> TRUE, t |-> t, doc |-> "", eg |-> ""]
Secret(f) == [f EXCEPT !.ex = FALSE]
Doc(f, d, eg) == [f EXCEPT !.doc = d, !.eg = eg]

\* ---- the named types of the driver
Names == {"Leaf", "Tree", "Ping", "Pong", "Hidden", "Emb", "Bad", "BadIn", "Alice", "Bob", "PM", "Docs", "Gen", "Vague"}
Fields(n) ==
  CASE n = "Leaf" -> <<F("S", "", B("string")), F("N", "n,omitempty", B("int"))>>
    [] n = "Tree" -> <<F("V", "", B("int")), F("L", "left", Ptr(Named("Tree"))), F("Kids", "kids", Slice(Ptr(Named("Tree")))), F("By", ",omitempty", Map(Named("Tree")))>>
    [] n = "Ping" -> <<F("P", "", Ptr(Named("Pong")))>>
    [] n = "Pong" -> <<F("Q", "q", Slice(Named("Ping"))), F("X", "", B("bool"))>>
    [] n = "Hidden" -> <<F("A", "a", B("string")), Secret(F("b", "", Named("Pong"))), Secret(F("f", "", B("func"))), F("C", "-", B("func")), F("D", "-", Named("Ping")), F("E", "e", Ptr(B("time")))>>
    [] n = "Emb" -> <<F("Leaf", "", Named("Leaf")), F("X", "x", B("float"))>>
    [] n = "Bad" -> <<F("A", "", Named("Leaf")), F("F", "", B("func"))>>
    [] n = "BadIn" -> <<F("P", "", Named("Ping")), F("L", "", Slice(Named("Bad")))>>
    [] n = "Alice" -> <<F("B", "", Named("Bob")), F("C", "", B("chan"))>>
    [] n = "Bob" -> <<F("A", "", Ptr(Named("Alice"))), F("X", "", B("int"))>>
    [] n = "PM" -> <<F("X", "", B("int"))>>
    [] n = "Docs" -> <<Doc(F("A", "a", B("int")), "first", "12"), Doc(F("B", "b", Slice(B("int"))), "second", "[1]"), Doc(F("C", "", Named("Leaf")), "third", ""), Doc(F("D", "", B("string")), "", "true")>>
    [] n = "Gen" -> <<F("V", "v", B("int"))>>
    [] n = "Vague" -> <<F("A", "", B("any")), F("R", "", B("raw")), F("D", "", B("digits")), F("S", "s", B("mstr")), F("P", "p", Ptr(Named("PM")))>>

Cut(tag) == CASE tag = "n,omitempty" -> "n" [] tag = ",omitempty" -> "" [] tag = "x,omitempty" -> "x" [] OTHER -> tag
Omits(f) == f.tag \in {"n,omitempty", ",omitempty", "x,omitempty"}
JName(f) == IF Cut(f.tag) = "" THEN f.n ELSE Cut(f.tag)
IsSent(f) == f.ex /\ f.tag # "-"
FieldsOf(t) == SelectSeq(IF t.k = "named" THEN Fields(t.n) ELSE t.fs, IsSent)
\* a pointer may have its own way to be sent
Through(t) == IF t.k = "ptr" THEN IF t.e[1].k = "named" /\ t.e[1].n = "PM" THEN B("mstr") ELSE t.e[1] ELSE t
RECURSIVE Deref(_)
Deref(t) == IF t.k = "ptr" THEN Deref(Through(t)) ELSE t

\* ---- the named types a type refers to, and whether all of it can be sent
Step(u) == u.e \o (IF u.k \in {"anon", "named"} THEN [n \in DOMAIN FieldsOf(u) |-> FieldsOf(u)[n].t] ELSE <<>>)
Parts(u) == {Deref(Step(u)[n]) : n \in DOMAIN Step(u)}
RECURSIVE Closure(_)
Closure(us) == LET more == us \cup UNION {Parts(u) : u \in us} IN IF more = us THEN us ELSE Closure(more)
All(t) == Closure({Deref(t)})
Reach(t) == {u.n : u \in {x \in All(t) : x.k = "named"}}
CanBeSent(t) == \A u \in All(t) : u.k \notin {"func", "chan"}

\* ---- examples: a text, read as a value of the type if it is one
Texts == [none |-> [v |-> "", q |-> ""], true |-> [v |-> "true", q |-> "\"true\""], n12 |-> [v |-> "12", q |-> "\"12\""], f15 |-> [v |-> "1.5", q |-> "\"1.5\""],
          neg |-> [v |-> "-3", q |-> "\"-3\""], abc |-> [v |-> "abc", q |-> "\"abc\""], list |-> [v |-> "[1]", q |-> "\"[1]\""], map |-> [v |-> "{\"a\":1}", q |-> "\"{\\\"a\\\":1}\""]]
TextOf(v) == CHOOSE x \in {Texts[k] : k \in DOMAIN Texts} : x.v = v
Reads(k, v) ==
  CASE k = "bool" -> v \in {"true"}
    [] k = "int" -> v \in {"12", "-3"}
    [] k \in {"float", "digits", "mnum", "mneg"} -> v \in {"12", "-3", "1.5"}
    [] k \in {"slice", "array"} -> v = "[1]"
    [] k \in {"map", "imap", "anon", "named"} -> v = "{\"a\":1}"
    [] k = "any" -> v # "abc"
    [] k = "mbool" -> v = "true"
    [] OTHER -> FALSE
Example(k, v) == IF v = "" THEN "" ELSE IF Reads(k, v) THEN v ELSE TextOf(v).q

\* ---- the schema of a type
S(type) == [type |-> type, format |-> "", items |-> <<>>, extra |-> <<>>, props |-> <<>>, ref |-> "", desc |-> "", eg |-> ""]
RECURSIVE Shape(_, _, _)
Props(t) == LET fs == FieldsOf(t) IN [n \in {JName(fs[i]) : i \in DOMAIN fs} |-> LET f == fs[CHOOSE i \in DOMAIN fs : JName(fs[i]) = n] IN Shape(f.t, f.doc, f.eg)]
Struct(t) == [S("object") EXCEPT !.props = Props(t)]
Shape(t, doc, eg) ==
  LET u == Deref(t)
      k == u.k
      s == CASE k \in {"string", "mstr"} -> S("string")
             [] k = "bytes" -> [S("string") EXCEPT !.format = "byte"]
             [] k = "time" -> [S("string") EXCEPT !.format = "date-time"]
             [] k \in {"bool", "mbool"} -> S("boolean")
             [] k \in {"int", "float", "digits", "mnum", "mneg"} -> S("number")
             [] k \in {"any", "raw"} -> S("object")
             [] k \in {"slice", "array"} -> [S("array") EXCEPT !.items = <<Shape(u.e[1], "", "")>>]
             [] k \in {"map", "imap"} -> [S("object") EXCEPT !.extra = <<Shape(u.e[1], "", "")>>]
             [] k = "anon" -> Struct(u)
             [] k = "named" -> [S("") EXCEPT !.ref = u.n]
  IN [s EXCEPT !.desc = doc, !.eg = Example(k, eg)]
Def(n) == Struct(Named(n))

\* ---- what is sent: J(kind), elements, members
J(k, e, m) == [k |-> k, e |-> e, m |-> m]
RECURSIVE Fits(_, _, _)
Fits(v, s, defs) ==
  IF v.k = "null" THEN TRUE
  ELSE IF s.ref # "" THEN s.ref \in DOMAIN defs /\ Fits(v, defs[s.ref], defs)
  ELSE CASE s.type = "string" -> v.k = "str"
         [] s.type = "boolean" -> v.k = "bool"
         [] s.type = "number" -> v.k = "num"
         [] s.type = "array" -> v.k = "arr" /\ \A n \in DOMAIN v.e : Fits(v.e[n], s.items[1], defs)
         [] s.type = "object" /\ s.extra # <<>> -> v.k = "obj" /\ \A n \in DOMAIN v.m : Fits(v.m[n], s.extra[1], defs)
         [] s.type = "object" /\ DOMAIN s.props # {} -> v.k = "obj" /\ \A n \in DOMAIN v.m : n \in DOMAIN s.props /\ Fits(v.m[n], s.props[n], defs)
         [] OTHER -> TRUE
\* a value with nothing empty in it has all which the schema promises
RECURSIVE Complete(_, _, _, _)
Complete(v, s, defs, depth) ==
  IF v.k = "null" \/ depth = 0 THEN TRUE
  ELSE IF s.ref # "" THEN Complete(v, defs[s.ref], defs, depth)
  ELSE /\ DOMAIN s.props \subseteq DOMAIN v.m
       /\ \A n \in DOMAIN s.props : Complete(v.m[n], s.props[n], defs, depth - 1)
       /\ s.items # <<>> => \A n \in DOMAIN v.e : Complete(v.e[n], s.items[1], defs, depth - 1)
=============================================================================
