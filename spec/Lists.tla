-------------------------------- MODULE Lists --------------------------------
(* The list utilities, by what they must return.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Elems, MaxLen, MaxSplit
VARIABLES l, act
vars == <<l, act>>
View == l
Count(s, x) == Cardinality({j \in DOMAIN s : s[j] = x})
SameElems(a, b) == Len(a) = Len(b) /\ \A j \in DOMAIN a : Count(a, a[j]) = Count(b, a[j])
Sorted(s, Score(_)) == \A j \in 1..Len(s) - 1 : Score(s[j]) <= Score(s[j + 1])
Reverse(s) == [j \in DOMAIN s |-> s[Len(s) + 1 - j]]
Has(s, x) == \E j \in DOMAIN s : s[j] = x
AddUnique(s, x) == IF Has(s, x) THEN s ELSE Append(s, x)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
\* the parts of a split: any cut that keeps everything in order, within the limit
SplitOK(s, parts, max) == Flatten(parts) = s /\ \A j \in DOMAIN parts : Len(parts[j]) <= max
\* the balanced split of the code is one, for every length and limit
CodeSplit(s, max) == IF Len(s) <= max THEN <<s>> ELSE
  LET b == (Len(s) + max - 1) \div max  c == (Len(s) + b - 1) \div b IN
  [j \in 1..b |-> SubSeq(s, (j - 1) * c + 1, IF j * c > Len(s) THEN Len(s) ELSE j * c)]
ASSUME \A n \in 0..24, max \in 1..26 : SplitOK([j \in 1..n |-> j], CodeSplit([j \in 1..n |-> j], max), max)
\* permuting: the arrangements, the first as given, each by a swap of neighbours of the one before
Neighbours(a, b) == \E j \in 1..Len(a) - 1 : b = [a EXCEPT ![j] = a[j + 1], ![j + 1] = a[j]] /\ a # b
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
PermOK(orig, out) == /\ Len(out) = Fact(Len(orig)) /\ Cardinality({out[j] : j \in DOMAIN out}) = Fact(Len(orig))
                     /\ out[1] = orig /\ \A j \in 1..Len(out) - 1 : Neighbours(out[j], out[j + 1])
Score(x) == x % 3

Go(op, s) == l' = s /\ act' = [op |-> op, ret |-> s]
Init == l = <<>> /\ act = [op |-> "init"]
Lists == UNION {[1..n -> Elems] : n \in 0..MaxLen}
Next ==
  \/ Len(l) < MaxLen /\ \E x \in Elems : l' = Append(l, x) /\ act' = [op |-> "append", x |-> x, ret |-> l']
  \/ Go("reverse", Reverse(l)) \/ Go("copy", l)
  \/ \E x \in Elems : LET s == AddUnique(l, x) IN Len(s) <= MaxLen /\ l' = s /\ act' = [op |-> "addunique", x |-> x, ret |-> s]
  \/ \E x \in Elems : UNCHANGED l /\ act' = [op |-> "contains", x |-> x, ret |-> Has(l, x)]
  \/ \E s \in {s \in [DOMAIN l -> Elems] : SameElems(s, l)} :
     \/ Sorted(s, LAMBDA x : x) /\ Go("sort", s)
     \/ Sorted(s, LAMBDA x : 100 - x) /\ Go("sortdesc", s)
     \/ Sorted(s, Score) /\ Go("sortfunc", s)
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> [l |-> l], t |-> [l |-> l'], a |-> act', l |-> TLCGet("level")]))
Kept == [][act'.op \notin {"append", "addunique"} => SameElems(l, l')]_vars
Twice == Reverse(Reverse(l)) = l
=============================================================================
