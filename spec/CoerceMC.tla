------------------------------ MODULE CoerceMC ------------------------------
(* The table of conversions, enumerated: every kind of node against every kind *)
(* of type, nested up to the bound; and values to encode and decode again.     *)
EXTENDS Coerce
CONSTANTS Groups, Wide

N(k, s) == [k |-> k, s |-> s]
Nil == [k |-> "nil"]
GoNil == [k |-> "gonil"]
List(xs) == [k |-> "list", xs |-> xs]
Map(ks, xs) == [k |-> "map", ks |-> ks, xs |-> xs]
Pairs(ks, xs) == [k |-> "pairs", ks |-> ks, xs |-> xs]
Texts == [i \in DOMAIN Line |-> Line[i].s] \o [i \in DOMAIN Frac |-> Frac[i].s]
Ints == SelectSeq(Texts, LAMBDA s : At(s) # 0 /\ Fits("int64", s))
Digs == [i \in DOMAIN Texts |-> N("digits", Texts[i])]
Flts == [i \in 1..9 |-> N("float", <<"0", "1", "-1", "300", "1.5", "-1.5", "-0.5", "1e+300", "42">>[i])]
Others == <<Nil, GoNil, N("bool", "true"), N("bool", "false"), N("str", ""), N("str", "x"), N("str", "1"), N("str", "true"), N("str", "null"),
            N("str", "1s"), N("str", "-1.5s"), N("str", "2020-01-02T03:04:05.123456789Z"), N("str", "2020-01-02T03:04:05+02:00"),
            N("time", "2020-01-02T03:04:05Z"), N("dur", "1s"), N("dur", "7ns"), List(<<>>), Map(<<>>, <<>>), Pairs(<<>>, <<>>)>>
Leaves == Others \o Flts \o [i \in DOMAIN Ints |-> N("int", Ints[i])] \o Digs

T(k) == [k |-> k]
Ptr(e) == [k |-> "ptr", e |-> e]
Slice(e) == [k |-> "slice", e |-> e]
Array(n, e) == [k |-> "array", n |-> n, e |-> e]
MapT(kt, e) == [k |-> "map", key |-> kt, e |-> e]
F(n, j, t) == [n |-> n, j |-> j, tag |-> j, omit |-> FALSE, skip |-> FALSE, exp |-> TRUE, t |-> t]
Bare(n, t) == [F(n, n, t) EXCEPT !.tag = ""]
Omit(n, j, t) == [F(n, j, t) EXCEPT !.omit = TRUE, !.tag = j \o ",omitempty"]
Skip(n, t) == [F(n, "", t) EXCEPT !.skip = TRUE, !.tag = "-"]
Hidden(n, j, t) == [F(n, j, t) EXCEPT !.exp = FALSE]
St(fs) == [k |-> "struct", fs |-> fs]
Simple == <<"bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string",
            "any", "err", "node", "raw", "time", "etime", "tdur", "edur", "cu", "cj", "chan", "func", "complex128", "shape">>
Types1 == [i \in DOMAIN Simple |-> T(Simple[i])] \o
          <<Ptr(T("int8")), Ptr(T("string")), Ptr(Ptr(T("bool"))), Ptr(T("time")), Ptr(T("node")), Ptr(T("cu")), Slice(T("int8")), Slice(T("any")), Array(0, T("bool")), Array(2, T("int8")),
            MapT("string", T("any")), MapT("int8", T("int8")), St(<<>>), St(<<F("A", "a", T("int8"))>>), Ptr(St(<<F("A", "a", T("int8"))>>)), Slice(T("node"))>>

Few == <<Nil, N("bool", "true"), N("digits", "1"), N("digits", "300"), N("int", "-1"), N("float", "1.5"), N("str", "x"), List(<<>>), Map(<<>>, <<>>)>>
Elems == <<T("bool"), T("int8"), T("uint8"), T("float64"), T("string"), T("any"), T("node"), T("raw"), T("err"), T("time"), Ptr(T("int8")), Slice(T("string")), MapT("string", T("any")), T("cu"), T("shape")>>
Seqs2 == <<<<>>>> \o [i \in DOMAIN Few |-> <<Few[i]>>]
ListTypes(e) == <<Slice(e), Array(1, e), Array(2, e), Ptr(Slice(e)), Slice(Ptr(e))>>
Keys == <<"a", "A", "", "1", "300", "-1", "1.5", "1s", "x">>
KeyTypes == <<"string", "int", "int8", "uint8", "float64", "any", "edur", "bool">>
\* structures to decode an object into
Structs(e) == <<St(<<F("A", "a", e)>>), St(<<Bare("A", e)>>), St(<<Skip("S", e), Bare("A", T("any"))>>), St(<<Hidden("h", "a", T("int8")), F("X", "x", e)>>),
                St(<<F("B", "b", St(<<F("A", "a", e)>>)), Omit("A", "a", e)>>)>>
Inner == <<Map(<<"a">>, <<N("digits", "1")>>), Map(<<"a", "z">>, <<N("str", "x"), Nil>>), Pairs(<<"a", "a">>, <<N("int", "1"), N("int", "2")>>), List(<<N("digits", "1")>>),
           List(<<Nil, N("digits", "300")>>), Pairs(<<"x">>, <<Nil>>), GoNil, N("bool", "true")>>
Deep == <<Slice(Slice(T("int8"))), Slice(MapT("string", T("int8"))), MapT("string", Slice(T("any"))), Slice(St(<<F("A", "a", T("int8"))>>)), MapT("string", St(<<F("A", "a", T("any"))>>)),
          St(<<F("A", "a", St(<<F("A", "a", T("int8")), F("Z", "z", Ptr(T("int8")))>>))>>), St(<<F("A", "a", Ptr(St(<<F("A", "a", T("string"))>>))), F("Z", "z", T("node"))>>), T("any"), Ptr(MapT("string", T("node"))),
          Slice(T("raw")), St(<<F("A", "a", MapT("string", St(<<F("Q", "q", T("any"))>>))), F("X", "x", Slice(St(<<F("Q", "q", T("any"))>>)))>>), Array(2, Ptr(T("int8")))>>

(* -------------------------------- values ---------------------------------- *)
\* values of a type which JSON can say
RECURSIVE Vals(_)
Q(ss, tag) == [i \in DOMAIN ss |-> Val(tag, ss[i])]
Vals(t) == CASE t.k = "bool" -> Q(<<"true", "false">>, "b")
             [] t.k \in Signed \cup Unsigned -> Q(<<"0", "42", Low(t.k), High(t.k)>>, "i")
             [] t.k = "tdur" -> Q(<<"0", "1000000000">>, "i")
             [] t.k = "edur" -> Q(<<"0", "1000000000", "-1500000000">>, "i")
             [] t.k \in {"float32", "float64"} -> Q(<<"0", "-1.5", "300">>, "f")
             [] t.k \in {"string", "cu", "cj"} -> Q(<<"", "x", "null", "<\"\\&'\n>", "2020-01-02T03:04:05Z">>, "s")
             [] t.k \in {"time", "etime"} -> Q(<<"0001-01-01T00:00:00Z", "2020-01-02T03:04:05.123456789Z", "2020-01-02T03:04:05+02:00">>, "time")
             [] t.k = "any" -> <<Null, Val("any", Val("b", "false")), Val("any", Val("float64", "0")), Val("any", Val("float64", "1.5")), Val("any", Val("s", "")), Val("any", Val("s", "x")),
                                 Val("any", Val("l", <<>>)), Val("any", Val("l", <<Null, Val("any", Val("s", "x"))>>)), Val("any", Val("m", Empty)), Val("any", Val("m", [x \in {"", "k"} |-> Null]))>>
             [] t.k = "node" -> <<Val("node", Nil), Val("node", N("digits", "1e400")), Val("node", N("str", "x")), Val("node", List(<<Nil, N("bool", "true")>>)), Val("node", Map(<<"a">>, <<N("digits", "1")>>))>>
             [] t.k = "raw" -> <<Val("raw", JT(Nil)), Val("raw", JT(N("digits", "1.5"))), Val("raw", JT(Map(<<"a">>, <<List(<<>>)>>)))>>
             [] t.k = "ptr" -> <<Null>> \o LET vs == SelectSeq(Vals(t.e), LAMBDA v : Enc(t.e, v).j # "null") IN [i \in DOMAIN vs |-> Val("p", vs[i])]
             [] t.k = "slice" -> LET vs == Vals(t.e) IN <<Null, Val("l", <<>>), Val("l", vs)>> \o [i \in DOMAIN vs |-> Val("l", <<vs[i]>>)]
             [] t.k = "array" -> LET vs == Vals(t.e) IN [i \in DOMAIN vs |-> Val("l", [n \in 1..t.n |-> IF n = 1 THEN vs[i] ELSE vs[1]])]
             [] t.k = "map" -> LET vs == Vals(t.e)
                                   ks == CASE t.key \in {"string"} -> <<"", "k">>
                                           [] t.key \in Signed \cup Unsigned -> <<Low(t.key), High(t.key)>>
                                           [] t.key = "float64" -> <<"1.5", "0">>
                                           [] t.key = "edur" -> <<"0", "1000000000">>
                               IN <<Null, Val("m", Empty)>> \o [i \in DOMAIN vs |-> Val("m", [x \in {ks[1], ks[2]} |-> IF x = ks[1] THEN vs[i] ELSE vs[Len(vs)]])]
             [] t.k = "struct" ->
                  \* one field after the other takes its values
                  LET all == [i \in DOMAIN t.fs |-> Vals(t.fs[i].t)]
                      base(i) == IF t.fs[i].exp THEN all[i][Len(all[i])] ELSE Zero(t.fs[i].t)
                  IN <<Zero(t)>> \o Flat([i \in DOMAIN t.fs |-> IF ~t.fs[i].exp THEN <<>> ELSE
                        [p \in DOMAIN all[i] |-> Val("o", [q \in DOMAIN t.fs |-> IF q = i THEN all[i][p] ELSE base(q)])]])
\* omitting is specified for nothing, texts and numbers only
Values == <<"bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string",
            "any", "node", "raw", "time", "etime", "tdur", "edur", "cu", "cj">>
V1 == [i \in DOMAIN Values |-> T(Values[i])]
Wrap1(e) == <<Ptr(e), Slice(e), Array(2, e), MapT("string", e), St(<<F("A", "a", e), Bare("B", T("int8")), F("W", "q\"\\<& ", T("bool"))>>),
              St(<<Skip("S", e), Hidden("h", "a", T("int8")), F("A", "a", e)>>), St(<<Omit("P", "p", Ptr(e)), F("A", "a", T("int8"))>>)>>
            \o (IF e.k \in {"bool", "any", "node", "raw"} THEN <<>> ELSE IF e.k \in {"array", "struct", "slice", "map"} THEN <<>> ELSE <<St(<<F("A", "a", T("int8")), Omit("O", "o", e)>>)>>)
V2 == Flat([i \in DOMAIN V1 |-> Wrap1(V1[i])])
Kmaps == [i \in 1..9 |-> MapT(<<"int", "int8", "int64", "uint", "uint8", "uint64", "float64", "edur", "string">>[i], T("int8"))]

(* -------------------------------- graph ----------------------------------- *)
VARIABLES st, act
vars == <<st, act>>
View == st
Init == st = 0 /\ act = [op |-> "init"]
Dec(n, t, o, h) == LET r == Decode(n, t, o, h) IN r.ok # "free" /\ act' = [op |-> "dec", n |-> n, t |-> t, o |-> o, h |-> h, ret |-> r]
Round(t, v) == act' = [op |-> "enc", t |-> t, v |-> v, ret |-> [json |-> Enc(t, v), direct |-> Back(t, v), text |-> Back(t, v)]]
Rounds(t) == LET vs == Vals(t) IN \E j \in DOMAIN vs : Round(t, vs[j])
Both == {"zero", "filled"}
Asked(n, what, arg) == LET r == As(n, what, arg) IN r.ok # "free" /\ act' = [op |-> "as", n |-> n, what |-> what, arg |-> arg, ret |-> r]
Next == /\ UNCHANGED st
        /\ \/ 1 \in Groups /\ \E i \in DOMAIN Leaves, j \in DOMAIN Types1, o \in Both : Dec(Leaves[i], Types1[j], o, "none")
           \/ 2 \in Groups /\ \E i \in 0..Len(Few), j \in 1..Len(Few), e \in DOMAIN Elems :
                 LET xs == IF i = 0 THEN <<Few[j]>> ELSE <<Few[i], Few[j]>> IN
                 \E k \in DOMAIN ListTypes(Elems[e]) : Dec(List(xs), ListTypes(Elems[e])[k], "filled", "none")
           \/ 3 \in Groups /\ \E i \in DOMAIN Keys, j \in DOMAIN Few, e \in DOMAIN Elems :
                 \/ \E k \in DOMAIN KeyTypes : Dec(Map(<<Keys[i], "2">>, <<Few[j], Nil>>), MapT(KeyTypes[k], Elems[e]), "zero", "none")
                 \/ \E k \in DOMAIN Structs(Elems[e]), o \in Both, h \in {"none", "reject", "collect"} :
                      (h # "none" => o = "zero") /\ Dec(IF i % 2 = 0 THEN Map(<<Keys[i]>>, <<Few[j]>>) ELSE Pairs(<<Keys[i], "b">>, <<Few[j], Few[j]>>), Structs(Elems[e])[k], o, h)
           \/ 4 \in Groups /\ \E i \in DOMAIN Inner, j \in DOMAIN Inner, k \in DOMAIN Deep, h \in {"none", "reject", "collect"}, w \in 1..4 :
                 LET n == CASE w = 1 -> List(<<Inner[i], Inner[j]>>) [] w = 2 -> Map(<<"a", "x">>, <<Inner[i], Inner[j]>>)
                            [] w = 3 -> Pairs(<<"z", "a">>, <<Inner[i], Inner[j]>>) [] w = 4 -> Map(<<"a">>, <<Map(<<"a", "k">>, <<Inner[i], Inner[j]>>)>>)
                 IN Dec(n, Deep[k], "filled", h)
           \/ 5 \in Groups /\ \/ \E i \in DOMAIN V1 : Rounds(V1[i])
                              \/ \E i \in DOMAIN V2 : Rounds(V2[i])
                              \/ \E i \in DOMAIN Kmaps : Rounds(Kmaps[i])
           \/ 7 \in Groups /\ \/ \E i \in DOMAIN Leaves : \/ \E w \in {"time", "dur", "map", "int64", "uint64", "float64", "isfloat"} : Asked(Leaves[i], w, "")
                                                       \/ \E u \in {"ns", "us", "ms"} : Asked(Leaves[i], "times", u)
                              \/ \E i \in DOMAIN Inner : Asked(Inner[i], "map", "") \/ \E k \in DOMAIN Keys : Asked(Inner[i], "find", Keys[k])
                              \/ \E i, j \in DOMAIN Inner, k \in DOMAIN Keys : Asked(Pairs(<<"x", "a", "A">>, <<Inner[i], Inner[j], Nil>>), "find", Keys[k])
           \/ 6 \in Groups /\ \E i \in DOMAIN V2 : i % Wide = 0 /\ LET ts == Wrap1(V2[i]) IN \E k \in DOMAIN ts : Rounds(ts[k])
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> [s |-> st], t |-> [s |-> st'], a |-> act', l |-> TLCGet("level")]))
\* what is encoded comes back, by the table itself, unless fields are skipped
RoundTrip == [][act'.op = "enc" => LET r == Conv(NodeOf(act'.ret.json), act'.t, Zero(act'.t)) IN r.ok = "free" \/ r = Ok(act'.ret.direct)]_vars
\* null is the zero value
NullIsZero == [][(act'.op = "dec" /\ IsNil(act'.n) /\ act'.t.k \notin {"node", "raw"}) => act'.ret.ok = "yes" /\ act'.ret.v = Zero(act'.t)]_vars
\* a decoded value does not depend on what was there before, except in structures
Fresh == [][(act'.op = "dec" /\ act'.t.k # "struct" /\ act'.h = "none") => act'.ret = Conv(act'.n, act'.t, Zero(act'.t))]_vars
=============================================================================
