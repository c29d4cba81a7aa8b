------------------------------ MODULE AssertMC ------------------------------
(* Every assertion on every pair of small values, how the call may be written, *)
(* and taking elements from lists.                                             *)
EXTENDS Assertions, FiniteSets, Json
CONSTANTS MaxLen
VARIABLES list, act
vars == <<list, act>>
View == list
S(s) == [k |-> "str", s |-> s]
B(s) == [k |-> "bool", s |-> s]
I(s) == [k |-> "int", s |-> s]
NilV == [k |-> "nil"]
L(xs) == [k |-> "list", nil |-> FALSE, xs |-> xs]
M(ks, xs) == [k |-> "map", nil |-> FALSE, ks |-> ks, xs |-> xs]
X(form, v) == [k |-> "text", form |-> form, x |-> v]
Trees == <<NilV, B("true"), I("1"), L(<<>>), L(<<I("1"), NilV>>), M(<<"a", "b">>, <<I("1"), L(<<S("x")>>)>>), M(<<"a">>, <<M(<<>>, <<>>)>>)>>
Values == <<NilV, B("true"), B("false"), I("0"), I("1"), I("-1"), [k |-> "int8", s |-> "1"], [k |-> "int64", s |-> "9007199254740993"], [k |-> "int64", s |-> "9007199254740992"],
            [k |-> "f64", s |-> "1"], [k |-> "f64", s |-> "1.5"], S(""), S("x"), S("xy"), S("<nil>"), S("a b"), S("nul"),
            [k |-> "list", nil |-> TRUE, xs |-> <<>>], [k |-> "map", nil |-> TRUE, ks |-> <<>>, xs |-> <<>>], M(<<>>, <<>>), L(<<S("1")>>), L(<<S("x"), B("false")>>),
            M(<<"a", "b">>, <<I("1"), L(<<>>)>>), M(<<"b">>, <<I("1")>>), [k |-> "bytes", nil |-> TRUE],
            [k |-> "ptr", nil |-> TRUE], [k |-> "ptr", nil |-> FALSE], [k |-> "chan", nil |-> TRUE, n |-> 0], [k |-> "chan", nil |-> FALSE, n |-> 0], [k |-> "chan", nil |-> FALSE, n |-> 1],
            [k |-> "func", nil |-> TRUE], [k |-> "func", nil |-> FALSE], [k |-> "struct", s |-> "0"], [k |-> "struct", s |-> "1"], X("plain", [k |-> "int64", s |-> "9007199254740993"]),
            [k |-> "err", kind |-> "plain"], [k |-> "err", kind |-> "ctx"], [k |-> "err", kind |-> "wrapped"], [k |-> "err", kind |-> "struct"]>>
          \o Trees \o [i \in DOMAIN Trees |-> X("plain", Trees[i])] \o [i \in DOMAIN Trees |-> X("loose", Trees[i])]
          \o <<[k |-> "bytes", nil |-> FALSE, x |-> Trees[6]], [k |-> "raw", nil |-> FALSE, x |-> Trees[6]], [k |-> "raw", nil |-> FALSE, x |-> Trees[3]]>>
Patterns == <<S(""), S("x"), S("1"), S("nil"), S("null"), S("["), S("{\"a\":1"), S("\"b\":[]"), S("xyz")>>
\* how the call is written: the verdict does not depend on it
Forms == {"lines", "variable", "deferred", "paren", "spread", "literal", "wrapped", "nested", "generic", "twice"}
FormHelpers == {"EqualsType", "EqualsStr", "NotEqualsStr", "EqualsGo", "NotEqualsGo", "EqualsJSON", "NotEqualsJSON", "Nil", "NotNil", "Empty", "NotEmpty", "Assert", "NoError", "Error", "Contains"}
Init == list = <<>> /\ act = [op |-> "init"]
Say(a, ret) == act' = a @@ [ret |-> ret, obs |-> list']
Check(h, a, b) == Judged(h, a, b) /\ UNCHANGED list /\ Say([op |-> "check", h |-> h, a |-> a, b |-> b], Outcome(Holds(h, a, b)))
Push(x) == Len(list) < MaxLen /\ list' = Append(list, x) /\ Say([op |-> "push", x |-> x], "go")
Take(op) == list' = Left(op, list) /\ Say([op |-> op], IF list = <<>> THEN [out |-> "stop", x |-> 0] ELSE [out |-> "go", x |-> Taken(op, list)])
Form(f, h, holds) == UNCHANGED list /\ Say([op |-> "form", form |-> f, h |-> h, holds |-> holds], Outcome(holds))
\* the context of a test lives as long as the test, and knows it
Context == UNCHANGED list /\ Say([op |-> "context"], [during |-> "alive", after |-> "canceled", tester |-> "same", bare |-> "none"])
Bare(h) == UNCHANGED list /\ Say([op |-> "bare", h |-> h], IF h = "OK" THEN "go" ELSE "stop")
Next == \/ list = <<>> /\ \/ \E i \in DOMAIN Values, j \in DOMAIN Values, h \in Helpers \ (Unary \cup {"Contains", "NotContains", "ContainsGo", "ContainsJSON", "NotContainsJSON"}) : Check(h, Values[i], Values[j])
                          \/ \E i \in DOMAIN Values, h \in Unary : Check(h, Values[i], NilV)
                          \/ \E i \in DOMAIN Values, j \in DOMAIN Patterns, h \in {"Contains", "NotContains", "ContainsGo", "ContainsJSON", "NotContainsJSON"} : Check(h, Values[i], Patterns[j])
                          \/ \E f \in Forms, h \in FormHelpers, b \in BOOLEAN : Form(f, h, b)
                          \/ Context \/ \E h \in {"OK", "Fail"} : Bare(h)
        \/ \E x \in 1..2 : Push(x)
        \/ \E op \in {"Shift", "Pop"} : Take(op)
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> list, t |-> list', a |-> act', l |-> TLCGet("level")]))
\* a negated helper stops exactly when the plain one would not; equalities are symmetric, and a value equals itself; nil values are empty
Opposite == \A i \in DOMAIN Values, j \in DOMAIN Values, h \in DOMAIN Negated :
              Judged(h, Values[i], Values[j]) => (Judged(Negated[h], Values[i], Values[j]) /\ Holds(h, Values[i], Values[j]) # Holds(Negated[h], Values[i], Values[j]))
Equality == \A i \in DOMAIN Values, j \in DOMAIN Values, h \in {"EqualsType", "EqualsStr", "EqualsGo", "EqualsJSON"} :
              Judged(h, Values[i], Values[j]) => (Holds(h, Values[i], Values[j]) = Holds(h, Values[j], Values[i])) /\ (i = j => Holds(h, Values[i], Values[j]))
NilEmpty == \A i \in DOMAIN Values : (Judged("Empty", Values[i], NilV) /\ Holds("Nil", Values[i], NilV)) => Holds("Empty", Values[i], NilV)
Laws == (list = <<>>) => (Opposite /\ Equality /\ NilEmpty)
\* nothing is lost or made up
Conserved == [][act'.op \in {"Shift", "Pop"} /\ act'.ret.out = "go" => list = IF act'.op = "Shift" THEN <<act'.ret.x>> \o list' ELSE Append(list', act'.ret.x)]_vars
=============================================================================
