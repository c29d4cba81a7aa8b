----------------------------- MODULE ListsTrace -----------------------------
(* Calls of the list utilities on longer lists, one per history.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
tvars == <<tr, i>>
L == INSTANCE Lists WITH Elems <- {}, MaxLen <- 0, MaxSplit <- 0, l <- 0, act <- 0
Ev == Traces[tr].ev[i]
More == i <= Len(Traces[tr].ev)
OK(e) ==
  CASE e.op = "split" -> L!SplitOK(e.in, e.out, e.max)
    [] e.op = "flatten" -> e.out = L!Flatten(e.in)
    [] e.op = "perm" -> L!PermOK(e.in, e.out)
    [] e.op = "pairs" -> L!SameElems(e.in, e.out)
    [] e.op = "reverse" -> e.out = L!Reverse(e.in)
    [] e.op = "copy" -> e.out = e.in
    [] e.op = "addunique" -> e.out = L!AddUnique(e.in, e.x)
    [] e.op = "sort" -> L!SameElems(e.in, e.out) /\ L!Sorted(e.out, LAMBDA x : x)
    [] e.op = "sortfunc" -> L!SameElems(e.in, e.out) /\ L!Sorted(e.out, L!Score)
TInit == tr \in 1..Len(Traces) /\ i = 1
TNext == More /\ i' = i + 1 /\ UNCHANGED tr /\ OK(Ev)
TSpec == TInit /\ [][TNext]_tvars
Accept == IF More THEN TRUE ELSE PrintT("ACC " \o ToString(tr)) /\ FALSE
Progress == PrintT("POS " \o ToString(tr) \o " " \o ToString(i))
=============================================================================
