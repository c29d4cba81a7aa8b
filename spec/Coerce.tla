------------------------------- MODULE Coerce -------------------------------
(* Converting between node trees and Go values: Conv is the table which says   *)
(* what decoding a node into a value of a type gives (a value, an error, or    *)
(* not judged), Enc the JSON tree of the encoding of a value. Values, types    *)
(* and nodes are terms; numerals are texts.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

(* ------------------------------ numerals ---------------------------------- *)
\* integers in order, with their nearest 64 and 32 bits floats
Line == <<
  [s |-> "-9223372036854775809", f |-> "-9.223372036854776e+18", g |-> "-9.223372e+18"],
  [s |-> "-9223372036854775808", f |-> "-9.223372036854776e+18", g |-> "-9.223372e+18"],
  [s |-> "-2147483649", f |-> "-2.147483649e+09", g |-> "-2.1474836e+09"],
  [s |-> "-2147483648", f |-> "-2.147483648e+09", g |-> "-2.1474836e+09"],
  [s |-> "-32769", f |-> "-32769", g |-> "-32769"],
  [s |-> "-32768", f |-> "-32768", g |-> "-32768"],
  [s |-> "-129", f |-> "-129", g |-> "-129"],
  [s |-> "-128", f |-> "-128", g |-> "-128"],
  [s |-> "-12", f |-> "-12", g |-> "-12"],
  [s |-> "-1", f |-> "-1", g |-> "-1"],
  [s |-> "0", f |-> "0", g |-> "0"],
  [s |-> "1", f |-> "1", g |-> "1"],
  [s |-> "2", f |-> "2", g |-> "2"],
  [s |-> "7", f |-> "7", g |-> "7"],
  [s |-> "42", f |-> "42", g |-> "42"],
  [s |-> "127", f |-> "127", g |-> "127"],
  [s |-> "128", f |-> "128", g |-> "128"],
  [s |-> "200", f |-> "200", g |-> "200"],
  [s |-> "255", f |-> "255", g |-> "255"],
  [s |-> "256", f |-> "256", g |-> "256"],
  [s |-> "300", f |-> "300", g |-> "300"],
  [s |-> "1000", f |-> "1000", g |-> "1000"],
  [s |-> "1500", f |-> "1500", g |-> "1500"],
  [s |-> "32767", f |-> "32767", g |-> "32767"],
  [s |-> "32768", f |-> "32768", g |-> "32768"],
  [s |-> "65535", f |-> "65535", g |-> "65535"],
  [s |-> "65536", f |-> "65536", g |-> "65536"],
  [s |-> "2147483647", f |-> "2.147483647e+09", g |-> "2.1474836e+09"],
  [s |-> "2147483648", f |-> "2.147483648e+09", g |-> "2.1474836e+09"],
  [s |-> "4294967295", f |-> "4.294967295e+09", g |-> "4.2949673e+09"],
  [s |-> "4294967296", f |-> "4.294967296e+09", g |-> "4.2949673e+09"],
  [s |-> "9007199254740993", f |-> "9.007199254740992e+15", g |-> "9.007199e+15"],
  [s |-> "9223372036854775807", f |-> "9.223372036854776e+18", g |-> "9.223372e+18"],
  [s |-> "9223372036854775808", f |-> "9.223372036854776e+18", g |-> "9.223372e+18"],
  [s |-> "10000000000000000000", f |-> "1e+19", g |-> "1e+19"],
  [s |-> "18446744073709551615", f |-> "1.8446744073709552e+19", g |-> "1.8446744e+19"],
  [s |-> "18446744073709551616", f |-> "1.8446744073709552e+19", g |-> "1.8446744e+19"]
>>
Tiny == {"-1", "0", "1", "2", "7", "42"}
At(s) == IF \E n \in DOMAIN Line : Line[n].s = s THEN CHOOSE n \in DOMAIN Line : Line[n].s = s ELSE 0
\* other numerals: their integral part (none: too big), whether an integer may be
\* made of them at all
Frac == <<
  [s |-> "1.5",    tr |-> "1",    f |-> "1.5",    g |-> "1.5"],
  [s |-> "-1.5",   tr |-> "-1",   f |-> "-1.5",   g |-> "-1.5"],
  [s |-> "0.5",    tr |-> "0",    f |-> "0.5",    g |-> "0.5"],
  [s |-> "2.0",    tr |-> "2",    f |-> "2",      g |-> "2"],
  [s |-> "255.9",  tr |-> "255",  f |-> "255.9",  g |-> "255.9"],
  [s |-> "256.5",  tr |-> "256",  f |-> "256.5",  g |-> "256.5"],
  [s |-> "-0.5",   tr |-> "zero", f |-> "-0.5",   g |-> "-0.5"],
  [s |-> "1e3",    tr |-> "1000", f |-> "1000",   g |-> "1000"],
  [s |-> "1.5e3",  tr |-> "1500", f |-> "1500",   g |-> "1500"],
  [s |-> "2E+2",   tr |-> "200",  f |-> "200",    g |-> "200"],
  [s |-> "-1.25e1", tr |-> "-12", f |-> "-12.5",  g |-> "-12.5"],
  [s |-> "15e-1",  tr |-> "1",    f |-> "1.5",    g |-> "1.5"],
  [s |-> "1e-400", tr |-> "0",    f |-> "0",      g |-> "0"],
  [s |-> "25590000e-5", tr |-> "255", f |-> "255.9", g |-> "255.9"],
  [s |-> "1e19",   tr |-> "10000000000000000000", f |-> "1e+19", g |-> "1e+19"],
  [s |-> "9223372036854775807.5e0", tr |-> "9223372036854775807", f |-> "9.223372036854776e+18", g |-> "9.223372e+18"],
  [s |-> "0e99999", tr |-> "0",   f |-> "0",      g |-> "0"],
  [s |-> "1e+300", tr |-> "none", f |-> "1e+300", g |-> "none"],
  [s |-> "1e400",  tr |-> "none", f |-> "none",   g |-> "none"]
>>
FAt(s) == IF \E n \in DOMAIN Frac : Frac[n].s = s THEN CHOOSE n \in DOMAIN Frac : Frac[n].s = s ELSE 0
Int(s) == IF At(s) # 0 THEN s ELSE IF FAt(s) # 0 THEN Frac[FAt(s)].tr ELSE "free"
F64(s) == IF At(s) # 0 THEN Line[At(s)].f ELSE IF FAt(s) # 0 THEN Frac[FAt(s)].f ELSE "free"
F32(s) == IF At(s) # 0 THEN Line[At(s)].g ELSE IF FAt(s) # 0 THEN Frac[FAt(s)].g ELSE "free"
Signed == {"int", "int8", "int16", "int32", "int64"}
Unsigned == {"uint", "uint8", "uint16", "uint32", "uint64"}
Low(k) == CASE k \in Unsigned -> "0" [] k = "int8" -> "-128" [] k = "int16" -> "-32768" [] k = "int32" -> "-2147483648" [] OTHER -> "-9223372036854775808"
High(k) == CASE k = "int8" -> "127" [] k = "int16" -> "32767" [] k = "int32" -> "2147483647"
             [] k = "uint8" -> "255" [] k = "uint16" -> "65535" [] k = "uint32" -> "4294967295"
             [] k \in {"uint", "uint64"} -> "18446744073709551615" [] OTHER -> "9223372036854775807"
Fits(k, s) == At(Low(k)) <= At(s) /\ At(s) <= At(High(k))

(* ------------------------------- results ---------------------------------- *)
Ok(v) == [ok |-> "yes", v |-> v]
Err == [ok |-> "no"]
Free == [ok |-> "free"]
Wrap(r, W(_)) == IF r.ok = "yes" THEN Ok(W(r.v)) ELSE r
\* one result of many
All(rs) == IF \E n \in DOMAIN rs : rs[n].ok = "no" THEN Err
           ELSE IF \E n \in DOMAIN rs : rs[n].ok = "free" THEN Free
           ELSE Ok([n \in DOMAIN rs |-> rs[n].v])
Val(t, v) == [t |-> t, v |-> v]
Null == [t |-> "nil"]
Empty == [x \in {} |-> 0]
Fn(ks, vs) == [k \in {ks[n] : n \in DOMAIN ks} |-> vs[CHOOSE n \in DOMAIN ks : ks[n] = k /\ \A m \in DOMAIN ks : ks[m] = k => m <= n]]

(* -------------------------------- types ----------------------------------- *)
\* texts of times, and of durations in nanoseconds
Times == {"2020-01-02T03:04:05Z", "2020-01-02T03:04:05.123456789Z", "2020-01-02T03:04:05+02:00", "2001-02-03T04:05:06Z", "0001-01-01T00:00:00Z"}
Durs == [s \in {"", "1s", "1m0s", "-1.5s", "7ns"} |->
          CASE s = "" -> "0" [] s = "1s" -> "1000000000" [] s = "1m0s" -> "60000000000" [] s = "-1.5s" -> "-1500000000" [] s = "7ns" -> "7"]
RECURSIVE Zero(_)
Zero(t) == CASE t.k = "bool" -> Val("b", "false")
             [] t.k \in Signed \cup Unsigned \cup {"tdur", "edur"} -> Val("i", "0")
             [] t.k \in {"float32", "float64"} -> Val("f", "0")
             [] t.k \in {"string", "cu", "cj"} -> Val("s", "")
             [] t.k \in {"time", "etime"} -> Val("time", "0001-01-01T00:00:00Z")
             [] t.k = "array" -> Val("l", [n \in 1..t.n |-> Zero(t.e)])
             [] t.k = "struct" -> Val("o", [n \in DOMAIN t.fs |-> Zero(t.fs[n].t)])
             [] OTHER -> Null
\* what is in a destination which was used before
RECURSIVE Filled(_)
Filled(t) == CASE t.k = "bool" -> Val("b", "true")
               [] t.k \in Signed \cup Unsigned \cup {"tdur", "edur"} -> Val("i", "7")
               [] t.k \in {"float32", "float64"} -> Val("f", "7.5")
               [] t.k \in {"string", "cu", "cj"} -> Val("s", "old")
               [] t.k \in {"time", "etime"} -> Val("time", "2001-02-03T04:05:06Z")
               [] t.k = "any" -> Val("any", Val("s", "old"))
               [] t.k = "node" -> Val("node", [k |-> "str", s |-> "old"])
               [] t.k = "raw" -> Val("raw", [j |-> "s", s |-> "old"])
               [] t.k = "ptr" -> Val("p", Filled(t.e))
               [] t.k = "slice" -> Val("l", <<Filled(t.e)>>)
               [] t.k = "array" -> Val("l", [n \in 1..t.n |-> Filled(t.e)])
               [] t.k = "map" /\ t.key = "string" -> Val("m", [x \in {"old"} |-> Filled(t.e)])
               [] t.k = "struct" -> Val("o", [n \in DOMAIN t.fs |-> IF t.fs[n].exp THEN Filled(t.fs[n].t) ELSE Zero(t.fs[n].t)])
               [] OTHER -> Null

(* -------------------------------- nodes ----------------------------------- *)
IsNil(n) == n.k \in {"nil", "gonil"}
IsObj(n) == n.k \in {"map", "pairs"}
IsNum(n) == n.k \in {"int", "float", "digits"}
\* the JSON tree of a node
RECURSIVE JT(_)
JT(n) == CASE IsNil(n) -> [j |-> "null"]
           [] n.k = "bool" -> [j |-> "b", s |-> n.s]
           [] IsNum(n) -> [j |-> "n", s |-> n.s]
           [] n.k \in {"str", "time", "dur"} -> [j |-> "s", s |-> n.s]
           [] n.k = "list" -> [j |-> "l", xs |-> [i \in DOMAIN n.xs |-> JT(n.xs[i])]]
           [] IsObj(n) -> [j |-> "o", fs |-> Fn(n.ks, [i \in DOMAIN n.xs |-> JT(n.xs[i])])]
\* and the other way
RECURSIVE NodeOf(_)
NodeOf(j) == CASE j.j = "null" -> [k |-> "nil"]
               [] j.j = "b" -> [k |-> "bool", s |-> j.s]
               [] j.j = "n" -> [k |-> "digits", s |-> j.s]
               [] j.j = "s" -> [k |-> "str", s |-> j.s]
               [] j.j = "l" -> [k |-> "list", xs |-> [i \in DOMAIN j.xs |-> NodeOf(j.xs[i])]]
               [] j.j = "o" -> LET ks == CHOOSE q \in [1..Cardinality(DOMAIN j.fs) -> DOMAIN j.fs] : {q[i] : i \in DOMAIN q} = DOMAIN j.fs
                               IN [k |-> "map", ks |-> ks, xs |-> [i \in DOMAIN ks |-> NodeOf(j.fs[ks[i]])]]

(* ------------------------------- decoding --------------------------------- *)
\* the plain value a node stands for, as found in an `any`
RECURSIVE Native(_)
Native(n) == CASE IsNil(n) -> Ok(Null)
               [] n.k = "bool" -> Ok(Val("any", Val("b", n.s)))
               [] n.k = "int" -> Ok(Val("any", Val("int64", n.s)))
               [] n.k = "float" -> Ok(Val("any", Val("float64", n.s)))
               [] n.k = "digits" -> IF F64(n.s) \in {"none", "free"} THEN Free ELSE Ok(Val("any", Val("float64", F64(n.s))))
               [] n.k = "str" -> Ok(Val("any", Val("s", n.s)))
               [] n.k \in {"time", "dur"} -> Free
               [] n.k = "list" -> LET L(vs) == Val("any", Val("l", vs)) IN Wrap(All([i \in DOMAIN n.xs |-> Native(n.xs[i])]), L)
               [] IsObj(n) -> LET M(vs) == Val("any", Val("m", Fn(n.ks, vs))) IN Wrap(All([i \in DOMAIN n.xs |-> Native(n.xs[i])]), M)
Numeric(n, k) ==
    CASE k \in Signed \cup Unsigned \cup {"tdur"} ->
           LET s == Int(n.s) IN
           IF s = "free" THEN Free ELSE IF s = "none" THEN Err
           ELSE IF s = "zero" THEN (IF k \in Unsigned THEN Free ELSE Ok(Val("i", "0")))
           ELSE IF k = "tdur" THEN (IF Fits("int64", s) THEN Ok(Val("i", s)) ELSE Err)
           ELSE IF Fits(k, s) THEN Ok(Val("i", s)) ELSE Err
      [] k = "float64" -> IF F64(n.s) = "none" THEN Err ELSE IF F64(n.s) = "free" THEN Free ELSE Ok(Val("f", F64(n.s)))
      [] k = "float32" -> IF F32(n.s) = "none" THEN Err ELSE IF F32(n.s) = "free" THEN Free ELSE Ok(Val("f", F32(n.s)))
      [] k = "string" -> Ok(Val("s", n.s))
      [] OTHER -> Err
\* the key of a map: what identifies it
Key(kt, s) == CASE kt \in {"string", "any"} -> Ok(s)
                [] kt \in Signed \cup Unsigned -> IF At(s) = 0 THEN Err ELSE IF Fits(kt, s) THEN Ok(s) ELSE Err
                [] kt = "float64" -> IF F64(s) \in {"none", "free"} THEN Err ELSE Ok(F64(s))
                [] kt = "edur" -> IF s \in DOMAIN Durs THEN Ok(Durs[s]) ELSE Err
                [] OTHER -> Err
RECURSIVE Conv(_, _, _)
Conv(n, t, old) ==
    CASE t.k = "ptr" -> LET P(v) == Val("p", v) IN IF IsNil(n) THEN Ok(Null) ELSE Wrap(Conv(n, t.e, Zero(t.e)), P)
      [] t.k = "node" -> Ok(Val("node", IF IsNil(n) THEN [k |-> "nil"] ELSE n))
      [] t.k = "raw" -> Ok(Val("raw", JT(n)))
      \* types which convert themselves
      [] t.k = "cu" -> IF n.k = "str" THEN Ok(Val("s", n.s)) ELSE IF IsNil(n) THEN Ok(Zero(t)) ELSE Err
      [] t.k = "cj" -> IF n.k \in {"str", "time", "dur"} THEN Ok(Val("s", n.s)) ELSE IF IsNil(n) THEN Ok(Zero(t)) ELSE Err
      [] IsNil(n) -> Ok(Zero(t))
      \* an interface the handler has a factory for
      [] t.k = "shape" -> IF n.k = "str" THEN Ok(Val("any", Val("s", n.s))) ELSE Err
      [] t.k \in {"time", "etime"} -> IF n.k \in {"str", "time"} /\ n.s \in Times THEN Ok(Val("time", n.s)) ELSE Err
      [] t.k = "edur" -> IF n.k \in {"str", "dur"} /\ n.s \in DOMAIN Durs THEN Ok(Val("i", Durs[n.s])) ELSE Err
      [] t.k = "any" -> Native(n)
      [] n.k = "time" -> IF t.k \in {"string", "err"} THEN Free ELSE Err
      [] n.k = "dur" -> IF t.k = "tdur" THEN Ok(Val("i", Durs[n.s]))
                        ELSE IF t.k \in Signed \cup Unsigned \cup {"float32", "float64", "string", "err"} THEN Free ELSE Err
      [] IsNum(n) -> Numeric(n, t.k)
      [] n.k = "bool" -> IF t.k = "bool" THEN Ok(Val("b", n.s)) ELSE Err
      [] n.k = "str" -> IF t.k = "string" THEN Ok(Val("s", n.s)) ELSE Err
      [] n.k = "list" -> IF t.k = "slice" \/ (t.k = "array" /\ t.n = Len(n.xs))
                         THEN LET L(vs) == Val("l", vs) IN Wrap(All([i \in DOMAIN n.xs |-> Conv(n.xs[i], t.e, Zero(t.e))]), L)
                         ELSE Err
      [] IsObj(n) ->
           IF t.k = "map"
           THEN LET es == [i \in DOMAIN n.xs |-> LET kr == Key(t.key, n.ks[i]) vr == Conv(n.xs[i], t.e, Zero(t.e)) V(v) == <<kr.v, v>>
                                                IN IF kr.ok # "yes" THEN kr ELSE Wrap(vr, V)]
                    M(vs) == Val("m", Fn([i \in DOMAIN vs |-> vs[i][1]], [i \in DOMAIN vs |-> vs[i][2]]))
                IN Wrap(All(es), M)
           ELSE IF t.k = "struct"
           THEN LET m == Fn(n.ks, n.xs)
                    S(vs) == Val("o", vs)
                IN Wrap(All([i \in DOMAIN t.fs |->
                        IF t.fs[i].exp /\ ~t.fs[i].skip /\ t.fs[i].j \in DOMAIN m
                        THEN Conv(m[t.fs[i].j], t.fs[i].t, old.v[i]) ELSE Ok(old.v[i])]), S)
           ELSE Err
\* the names of the fields nobody takes, as often as they are met
RECURSIVE Unknown(_, _)
RECURSIVE Flat(_)
Flat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Flat(Tail(qs))
Unknown(n, t) ==
    CASE t.k = "ptr" -> IF IsNil(n) THEN <<>> ELSE Unknown(n, t.e)
      [] n.k = "list" /\ t.k \in {"slice", "array"} -> Flat([i \in DOMAIN n.xs |-> Unknown(n.xs[i], t.e)])
      [] IsObj(n) /\ t.k \in {"map", "struct"} ->
           LET m == Fn(n.ks, n.xs)
               last == SelectSeq([i \in DOMAIN n.ks |-> i], LAMBDA i : \A p \in DOMAIN n.ks : n.ks[p] = n.ks[i] => p <= i)
               fs == {i \in DOMAIN t.fs : t.fs[i].exp /\ ~t.fs[i].skip}
           IN IF t.k = "map" THEN Flat([i \in DOMAIN last |-> Unknown(n.xs[last[i]], t.e)])
              ELSE Flat([i \in DOMAIN last |->
                     LET k == n.ks[last[i]] IN
                     IF \E f \in fs : t.fs[f].j = k THEN Unknown(n.xs[last[i]], t.fs[CHOOSE f \in fs : t.fs[f].j = k].t) ELSE <<k>>])
      [] OTHER -> <<>>
Count(q) == [k \in {q[i] : i \in DOMAIN q} |-> Cardinality({i \in DOMAIN q : q[i] = k})]
\* decoding, with a handler of unknown fields which does nothing, refuses them or takes them
Decode(n, t, o, h) ==
    LET r == Conv(n, t, IF o = "filled" THEN Filled(t) ELSE Zero(t))
        u == Unknown(n, t) IN
    IF h = "reject" /\ r.ok # "no" /\ u # <<>> THEN Err
    ELSE IF h = "collect" /\ r.ok = "yes" THEN [ok |-> "yes", v |-> r.v, unknown |-> Count(u)]
    ELSE r

(* --------------------- asking a node for what it is ------------------------ *)
Zeros == [u \in {"ns", "us", "ms"} |-> CASE u = "ns" -> "" [] u = "us" -> "000" [] u = "ms" -> "000000"]
\* some numbers of milliseconds in nanoseconds
Millis == [s \in {"1.5", "-1.5", "0.5", "-0.5", "2.0", "1e3", "1.5e3", "-1.25e1", "15e-1"} |->
            CASE s \in {"1.5", "15e-1"} -> "1500000" [] s = "-1.5" -> "-1500000" [] s = "0.5" -> "500000" [] s = "-0.5" -> "-500000"
              [] s = "2.0" -> "2000000" [] s = "1e3" -> "1000000000" [] s = "1.5e3" -> "1500000000" [] s = "-1.25e1" -> "-12500000"]
As(n, what, arg) ==
    CASE what = "time" -> IF n.k # "str" THEN Free ELSE IF n.s \in Times THEN Ok(Val("time", n.s)) ELSE Err
      [] what = "dur" -> IF n.k # "str" THEN Free ELSE IF n.s \in DOMAIN Durs THEN Ok(Val("i", Durs[n.s])) ELSE Err
      [] what = "map" -> IF IsObj(n) THEN Ok(Val("raw", JT(n))) ELSE Err
      [] what = "find" -> IF n.k # "pairs" THEN Free
                          ELSE LET is == {i \in DOMAIN n.ks : n.ks[i] = arg} IN
                               IF is = {} THEN Ok(Null) ELSE IF Cardinality(is) > 1 THEN Free ELSE Ok(Val("raw", JT(n.xs[CHOOSE i \in is : TRUE])))
      [] what \in {"int64", "uint64", "float64"} -> IF IsNum(n) THEN Numeric(n, what) ELSE Free
      [] what = "isfloat" -> IF n.k # "digits" THEN Free ELSE Ok(Val("b", IF At(n.s) # 0 THEN "false" ELSE "true"))
      [] what = "times" -> IF ~IsNum(n) THEN Free
                           ELSE IF At(n.s) # 0 THEN (IF Fits("int32", n.s) THEN Ok(Val("i", IF n.s = "0" THEN "0" ELSE n.s \o Zeros[arg])) ELSE Free)
                           ELSE IF arg = "ms" /\ n.s \in DOMAIN Millis THEN Ok(Val("i", Millis[n.s])) ELSE Free

(* ------------------------------- encoding --------------------------------- *)
\* from the key of a map to its name
Durs1(ns) == CHOOSE s \in DOMAIN Durs : Durs[s] = ns
KeyName(kt, s) == IF kt = "edur" THEN Durs1(s) ELSE s
Omitted(f, j) == f.omit /\ f.t.k \notin {"ptr", "any"} /\ j \in {[j |-> "s", s |-> ""], [j |-> "n", s |-> "0"]}
RECURSIVE Enc(_, _)
Enc(t, v) ==
    CASE t.k \in {"node"} -> IF v.t = "nil" THEN [j |-> "null"] ELSE JT(v.v)
      [] t.k = "raw" -> IF v.t = "nil" THEN [j |-> "null"] ELSE v.v
      [] v.t = "nil" -> [j |-> "null"]
      [] t.k = "edur" -> [j |-> "s", s |-> Durs1(v.v)]
      [] v.t = "b" -> [j |-> "b", s |-> v.v]
      [] v.t \in {"i", "f", "float64", "int64"} -> [j |-> "n", s |-> v.v]
      [] v.t \in {"s", "time"} -> [j |-> "s", s |-> v.v]
      [] v.t = "p" -> Enc(t.e, v.v)
      [] v.t = "any" -> Enc([k |-> "in"], v.v)
      [] v.t = "l" -> [j |-> "l", xs |-> [i \in DOMAIN v.v |-> Enc(IF t.k = "in" THEN [k |-> "any"] ELSE t.e, v.v[i])]]
      [] v.t = "m" -> [j |-> "o", fs |-> [k \in {KeyName(IF t.k = "in" THEN "string" ELSE t.key, x) : x \in DOMAIN v.v} |->
                          LET x == CHOOSE x \in DOMAIN v.v : KeyName(IF t.k = "in" THEN "string" ELSE t.key, x) = k
                          IN Enc(IF t.k = "in" THEN [k |-> "any"] ELSE t.e, v.v[x])]]
      [] v.t = "o" ->
           LET is == {i \in DOMAIN t.fs : LET f == t.fs[i] IN
                        f.exp /\ ~f.skip /\ LET j == Enc(f.t, v.v[i]) IN ~(f.omit /\ j = [j |-> "null"]) /\ ~Omitted(f, j)}
           IN [j |-> "o", fs |-> [k \in {t.fs[i].j : i \in is} |-> LET i == CHOOSE i \in is : t.fs[i].j = k IN Enc(t.fs[i].t, v.v[i])]]
\* what is left of a value when it comes back: what is skipped is lost
\* and no node is the null node
RECURSIVE Back(_, _)
Back(t, v) == CASE t.k = "node" /\ v.t = "nil" -> Val("node", [k |-> "nil"])
                [] t.k = "raw" /\ v.t = "nil" -> Val("raw", [j |-> "null"])
                [] v.t = "o" -> Val("o", [i \in DOMAIN t.fs |-> IF t.fs[i].exp /\ ~t.fs[i].skip THEN Back(t.fs[i].t, v.v[i]) ELSE Zero(t.fs[i].t)])
                [] v.t = "p" -> Val("p", Back(t.e, v.v))
                [] v.t = "l" /\ t.k # "in" -> Val("l", [i \in DOMAIN v.v |-> Back(t.e, v.v[i])])
                [] v.t = "m" /\ t.k # "in" -> Val("m", [x \in DOMAIN v.v |-> Back(t.e, v.v[x])])
                [] OTHER -> v
=============================================================================
