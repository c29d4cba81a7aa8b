---------------------------------- MODULE KV ----------------------------------
(* The key-value store (storage): content, and what a scan with filters visits. *)
(* An entry is [f, g], each a token or "missing".                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Val(tok) == IF tok = "missing" THEN "null" ELSE tok
Supported(flt) == flt.cmp \in {"EQ", "NEQ"}
Match(e, flt) == IF flt.cmp = "EQ" THEN Val(e[flt.field]) = flt.val ELSE Val(e[flt.field]) # flt.val
\* the filters are looked at in order, up to the first that does not match
Passes(e, flts) == \A n \in DOMAIN flts : Match(e, flts[n])
Reaches(e, flts, n) == \A j \in 1..(n-1) : Supported(flts[j]) /\ Match(e, flts[j])
MustFail(m, flts) == \E k \in DOMAIN m, n \in DOMAIN flts : ~Supported(flts[n]) /\ Reaches(m[k], flts, n)
MayFail(flts) == \E n \in DOMAIN flts : ~Supported(flts[n])
Visible(m, flts) == {k \in DOMAIN m : Passes(m[k], flts)}
Put(m, k, v) == (k :> v) @@ m
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Restrict(m, ks) == [k \in ks |-> m[k]]
None == [f |-> "none", g |-> "none"]

\* what a scan may answer: [out, seen]; stop is "no", or what the callback answers at its first call
Scans(m, flts, stop) ==
  IF MayFail(flts) THEN {[out |-> "filter", seen |-> {}]} \cup IF MustFail(m, flts) THEN {} ELSE {[out |-> "ok", seen |-> {}]}
  ELSE IF stop = "no" \/ Visible(m, flts) = {} THEN {[out |-> "ok", seen |-> Visible(m, flts)]}
  ELSE {[out |-> IF stop = "err" THEN "err" ELSE "ok", seen |-> {k}] : k \in Visible(m, flts)}

CONSTANTS KeySet, FVals, GVals
VARIABLES st, act
vars == <<st, act>>
View == st
Full(m) == [k \in KeySet |-> IF k \in DOMAIN m THEN m[k] ELSE None]
Entries == [f : FVals, g : GVals]
FilterSet == [field : {"f", "g"}, cmp : {"EQ", "NEQ", "GEQ"}, val : {"null", "x", "y"}]
Init == st = [x \in {} |-> 0] /\ act = [op |-> "init"]
Get(k) == st' = st /\ act' = [op |-> "get", k |-> k, ret |-> IF k \in DOMAIN st THEN st[k] ELSE None]
Upsert(k, e) == st' = Put(st, k, e) /\ act' = [op |-> "upsert", k |-> k, e |-> e, ret |-> "ok"]
Delete(k) == st' = Del(st, k) /\ act' = [op |-> "del", k |-> k, ret |-> "ok"]
Scan(flts, stop) == /\ st' = st
  /\ \E x \in Scans(st, flts, stop) :
       act' = [op |-> "scan", flts |-> flts, stop |-> stop, ret |-> [out |-> x.out, seen |-> Full(Restrict(st, x.seen))]]
\* the callback deletes everything, or replaces everything: it still sees what was there
ScanMod(flts, mod) == LET vis == Visible(st, flts) IN
  /\ st' = IF vis = {} THEN st ELSE IF mod = "del" THEN [x \in {} |-> 0] ELSE [k \in KeySet |-> [f |-> "y", g |-> "x"]]
  /\ act' = [op |-> "scanmod", flts |-> flts, mod |-> mod, ret |-> [out |-> "ok", seen |-> Full(Restrict(st, vis))]]
Next == \/ \E k \in KeySet : Get(k) \/ Delete(k) \/ \E e \in Entries : Upsert(k, e)
        \/ \E f \in FilterSet : \/ Scan(<<f>>, "eod") \/ Scan(<<f>>, "err")
                                \/ \E f2 \in FilterSet : Scan(<<f, f2>>, "no")
        \/ \E s \in {"no", "eod", "err"} : Scan(<<>>, s)
        \/ \E f \in FilterSet : Scan(<<f>>, "no")
        \/ \E m \in {"del", "put"} : ScanMod(<<>>, m) \/ ScanMod(<<[field |-> "f", cmp |-> "EQ", val |-> "x"]>>, m)
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> Full(st), t |-> Full(st'), a |-> act', l |-> TLCGet("level")]))
\* equal and not equal share the entries out
Partition == \A fld \in {"f", "g"}, v \in {"null", "x", "y"} :
  LET E(c) == Visible(st, <<[field |-> fld, cmp |-> c, val |-> v]>>) IN
  E("EQ") \cap E("NEQ") = {} /\ E("EQ") \cup E("NEQ") = DOMAIN st
ReadsLatest == [][act'.op = "upsert" => st'[act'.k] = act'.e]_vars
=============================================================================
