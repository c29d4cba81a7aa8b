------------------------------ MODULE SchemaMC ------------------------------
(* Types are described one after the other by one service, which keeps the    *)
(* definitions of the named types they refer to.                              *)
EXTENDS Schema, Json
CONSTANTS Deep
VARIABLES known, act
View == known
Basic == {"bool", "int", "float", "string", "time", "any", "raw", "digits", "mstr", "mnum", "mneg", "mbool"}
Base == {B(k) : k \in Basic} \cup {Named(n) : n \in Names}
Odd == {B("func"), B("chan"), B("bytes")}
Wrap(ts) == {Slice(t) : t \in ts} \cup {Array(t) : t \in ts} \cup {Map(t) : t \in ts} \cup {Ptr(t) : t \in ts} \cup {IMap(t) : t \in ts}
Some == {B("int"), B("mneg"), B("raw"), B("func"), Named("Leaf"), Named("Ping"), Named("Bad"), Named("PM"), Named("Hidden")}
AnonOf(t, u) == {Anon(<<F("A", "", t), F("B", "b", u)>>), Anon(<<F("A", "-", t), F("B", "x,omitempty", u)>>), Anon(<<F("A", ",omitempty", t), Secret(F("b", "", u))>>), Anon(<<Doc(F("A", "a", t), "about a", "12")>>)}
Types == Base \cup Odd \cup Wrap(Base \cup Odd) \cup {Anon(<<>>)} \cup UNION {AnonOf(t, u) : t \in Some, u \in {B("string"), Named("Tree"), B("func")}}
         \cup Wrap(Wrap(Some)) \cup (IF Deep THEN Wrap(UNION {AnonOf(t, B("bool")) : t \in Some}) \cup UNION {AnonOf(w, w) : w \in Wrap(Some)} \cup Wrap(Wrap(Base)) ELSE {})
Init == known = {} /\ act = [op |-> "init"]
Defs(ns) == [n \in ns |-> Def(n)]
Describe(t, doc, eg) == known' = (IF CanBeSent(t) THEN known \cup Reach(t) ELSE known)
                        /\ act' = [op |-> "describe", t |-> t, doc |-> doc, eg |-> eg, ret |-> [ok |-> IF CanBeSent(t) THEN <<Shape(t, doc, eg)>> ELSE <<>>, defs |-> Defs(known')]]
\* once several are known, only the ones which matter: those with named types
Next == \/ \E t \in Types : (Cardinality(known) <= 2 \/ (Reach(t) # {} /\ t.k \in {"named", "slice"})) /\ Describe(t, "", "")
        \/ known = {} /\ \E t \in Base \cup {Slice(B("int")), Map(B("int")), Array(B("int")), IMap(B("int")), Anon(<<>>), Ptr(B("int")), B("bytes")}, k \in DOMAIN Texts : Describe(t, IF k = "abc" THEN "words" ELSE "", Texts[k].v)
Spec == Init /\ [][Next]_<<known, act>>
Emit == PrintT(ToJson([f |-> known, t |-> known', a |-> act', l |-> TLCGet("level")]))
\* ---- what is defined is closed, and only grows
Closed == \A n \in known : Reach(Named(n)) \subseteq known /\ CanBeSent(Named(n))
Grows == [][known \subseteq known']_<<known, act>>

\* ---- the values of a type up to a depth fit its schema (an assumption of the model, evaluated once)
RECURSIVE Sent(_, _)
Sent(t, d) ==
  LET u == Deref(t)
      Nul == {J("null", <<>>, <<>>)}
      inner(x) == Sent(x, d - 1)
  IN (IF t.k = "ptr" THEN Nul ELSE {}) \cup
     CASE u.k \in {"string", "mstr", "time", "bytes"} -> {J("str", <<>>, <<>>)}
       [] u.k \in {"bool", "mbool"} -> {J("bool", <<>>, <<>>)}
       [] u.k \in {"int", "float", "digits", "mnum", "mneg"} -> {J("num", <<>>, <<>>)}
       [] u.k \in {"any", "raw"} -> {J("str", <<>>, <<>>), J("arr", <<>>, <<>>)}
       [] u.k \in {"slice", "array"} -> Nul \cup {J("arr", <<>>, <<>>)} \cup (IF d = 0 THEN {} ELSE {J("arr", <<v>>, <<>>) : v \in inner(u.e[1])})
       [] u.k \in {"map", "imap"} -> Nul \cup {J("obj", <<>>, <<>>)} \cup (IF d = 0 THEN {} ELSE {J("obj", <<>>, [x |-> v]) : v \in inner(u.e[1])})
       [] OTHER -> IF d = 0 THEN Nul ELSE
            LET fs == FieldsOf(u)
                one == [n \in {JName(fs[i]) : i \in DOMAIN fs} |-> CHOOSE v \in inner(fs[CHOOSE i \in DOMAIN fs : JName(fs[i]) = n].t) : TRUE]
                kept == {JName(fs[i]) : i \in {x \in DOMAIN fs : ~Omits(fs[x])}}
            IN {J("obj", <<>>, one), J("obj", <<>>, [n \in kept |-> one[n]])}
               \cup UNION {{J("obj", <<>>, [one EXCEPT ![JName(fs[i])] = v]) : v \in inner(fs[i].t)} : i \in DOMAIN fs}
ASSUME \A t \in Types : CanBeSent(t) => \A v \in Sent(t, 3) : Fits(v, Shape(t, "", ""), Defs(Reach(t)))
=============================================================================
