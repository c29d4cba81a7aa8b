---------------------------- MODULE Assertions ----------------------------
(* The assertions of package test, as predicates over values: an assertion     *)
(* stops its test exactly when its predicate does not hold.                    *)
EXTENDS Naturals, Sequences, TLC
\* a value is a record with its kind k; nil marks the nil value of the kind
Leaf == {"bool", "int", "int8", "int64", "f64"}
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
Quoted(s) == "\"" \o s \o "\""
\* "" is not judged
Type(v) == CASE v.k = "nil" -> "<nil>" [] v.k \in {"bool", "int", "int8", "int64"} -> v.k [] v.k = "f64" -> "float64" [] v.k \in {"str", "text"} -> "string"
             [] v.k = "bytes" -> "[]uint8" [] v.k = "raw" -> "json.RawMessage" [] v.k = "list" -> "[]interface {}" [] v.k = "map" -> "map[string]interface {}"
             [] v.k = "ptr" -> "*int" [] v.k = "chan" -> "chan int" [] v.k = "func" -> "func()" [] v.k = "struct" -> "asserts.S"
\* the canonical JSON of a value; a text (and raw bytes) which is JSON stands for what it says, but not inside of another value
RECURSIVE Json(_)
Json(v) == CASE v.k = "nil" -> "null" [] v.k \in Leaf -> v.s [] v.k = "str" -> Quoted(v.s) [] v.k \in {"text", "bytes", "raw"} -> Json(v.x)
             [] v.k = "list" -> IF v.nil THEN "null" ELSE "[" \o Join([i \in DOMAIN v.xs |-> Json(v.xs[i])], ",") \o "]"
             [] v.k = "map" -> IF v.nil THEN "null" ELSE "{" \o Join([i \in DOMAIN v.xs |-> Quoted(v.ks[i]) \o ":" \o Json(v.xs[i])], ",") \o "}"
             [] v.k = "ptr" -> IF v.nil THEN "null" ELSE "1" [] v.k = "struct" -> "{" \o Quoted("a") \o ":" \o v.s \o "}"
HasJson(v) == v.k \notin {"chan", "func"} /\ ~(v.k = "bytes" /\ v.nil)
RECURSIVE HasGo(_)
HasGo(v) == CASE v.k \in {"ptr", "chan", "func"} -> v.nil [] v.k \in {"bytes", "raw"} -> FALSE [] v.k = "text" -> v.form = "plain" /\ v.x.k \in Leaf \cup {"nil"}
              [] v.k \in {"list", "map"} -> \A i \in DOMAIN v.xs : HasGo(v.xs[i]) [] OTHER -> TRUE
RECURSIVE Go(_)
Inside(v) == IF v.k = "nil" THEN "interface {}(nil)" ELSE Go(v)
Go(v) == CASE v.k = "nil" -> "<nil>" [] v.k \in Leaf -> v.s [] v.k = "str" -> Quoted(v.s) [] v.k = "text" -> Quoted(Json(v.x))
           [] v.k = "list" -> IF v.nil THEN "[]interface {}(nil)" ELSE "[]interface {}{" \o Join([i \in DOMAIN v.xs |-> Inside(v.xs[i])], ", ") \o "}"
           [] v.k = "map" -> IF v.nil THEN "map[string]interface {}(nil)" ELSE "map[string]interface {}{" \o Join([i \in DOMAIN v.xs |-> Quoted(v.ks[i]) \o ":" \o Inside(v.xs[i])], ", ") \o "}"
           [] v.k = "struct" -> "asserts.S{A:" \o v.s \o "}" [] v.k = "ptr" -> "(*int)(nil)" [] v.k = "chan" -> "(chan int)(nil)" [] v.k = "func" -> "(func())(nil)"
IsNil(v) == v.k = "nil" \/ (v.k \in {"list", "map", "ptr", "chan", "func", "bytes"} /\ v.nil)
HasEmpty(v) == v.k \in {"nil", "str", "text", "bytes", "raw", "list", "map", "ptr", "chan", "struct"}
IsEmpty(v) == IsNil(v) \/ CASE v.k = "str" -> v.s = "" [] v.k \in {"list", "map"} -> v.xs = <<>> [] v.k = "chan" -> v.n = 0 [] v.k = "struct" -> v.s = "0" [] OTHER -> FALSE
Within(s, p) == \E i \in 0..(Len(s) - Len(p)) : Len(p) <= Len(s) /\ SubSeq(s, i + 1, i + Len(p)) = p
Some == "some"
\* what a helper asserts of its arguments
Helpers == {"EqualsType", "EqualsStr", "NotEqualsStr", "EqualsGo", "NotEqualsGo", "EqualsJSON", "NotEqualsJSON", "Nil", "NotNil", "Empty", "NotEmpty",
            "Contains", "NotContains", "ContainsGo", "ContainsJSON", "NotContainsJSON", "Assert", "NoError", "Error"}
Negated == [NotEqualsStr |-> "EqualsStr", NotEqualsGo |-> "EqualsGo", NotEqualsJSON |-> "EqualsJSON", NotNil |-> "Nil", NotEmpty |-> "Empty",
            NotContains |-> "Contains", NotContainsJSON |-> "ContainsJSON", Error |-> "NoError"]
\* one value for the one-sided
Unary == {"Nil", "NotNil", "Empty", "NotEmpty", "Assert", "NoError", "Error"}
Plain(h) == IF h \in DOMAIN Negated THEN Negated[h] ELSE h
Judged(h, a, b) == LET p == Plain(h) IN
  CASE p = "EqualsType" -> a.k # "err" /\ b.k # "err"
    [] p \in {"EqualsStr", "Contains"} -> a.k = "str" /\ b.k = "str"
    [] p = "EqualsGo" -> a.k # "err" /\ b.k # "err" /\ HasGo(a) /\ HasGo(b)
    [] p = "ContainsGo" -> a.k # "err" /\ b.k = "str" /\ HasGo(a)
    [] p = "EqualsJSON" -> a.k # "err" /\ b.k # "err" /\ HasJson(a) /\ HasJson(b)
    [] p = "ContainsJSON" -> a.k # "err" /\ b.k = "str" /\ HasJson(a)
    [] p = "Nil" -> a.k # "err" [] p = "Empty" -> a.k # "err" /\ HasEmpty(a)
    [] p = "Assert" -> a.k = "bool"
    [] p = "NoError" -> a.k \in {"nil", "err"}
Cond(p, a, b) ==
  CASE p = "EqualsType" -> Type(a) = Type(b) [] p = "EqualsStr" -> a.s = b.s [] p = "EqualsGo" -> Go(a) = Go(b) [] p = "EqualsJSON" -> Json(a) = Json(b)
    [] p = "Nil" -> IsNil(a) [] p = "Empty" -> IsEmpty(a) [] p = "Contains" -> Within(a.s, b.s) [] p = "ContainsGo" -> Within(Go(a), b.s)
    [] p = "ContainsJSON" -> Within(Json(a), b.s) [] p = "Assert" -> a.s = "true" [] p = "NoError" -> a.k = "nil"
Holds(h, a, b) == (h \in DOMAIN Negated) # Cond(Plain(h), a, b)
\* "go": the test goes on and has not failed; "stop": it has failed, and what follows is not executed
Outcome(holds) == IF holds THEN "go" ELSE "stop"
\* from a list: the element (0 if none), and what is left
Taken(op, l) == IF l = <<>> THEN 0 ELSE IF op = "Shift" THEN Head(l) ELSE l[Len(l)]
Left(op, l) == IF l = <<>> THEN l ELSE IF op = "Shift" THEN Tail(l) ELSE SubSeq(l, 1, Len(l) - 1)
=============================================================================
