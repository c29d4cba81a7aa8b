------------------------------- MODULE Frames -------------------------------
(* Who called whom (package utils), and what the call looks like in the source *)
(* (package utils/ast): the stack of calls as frames, and a source as the      *)
(* assignments in scope where the call is.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

(* -------------------------------- frames ---------------------------------- *)
\* kinds of functions: how they are called in full within their package, and for short
Fns == [k \in {"ask", "begin", "plain", "ptr", "val", "closure", "generic", "gmethod", "iface"} |->
         CASE k = "ptr" -> [full |-> "frames.(*T).ptr", name |-> "ptr"]
           [] k = "val" -> [full |-> "frames.T.val", name |-> "val"]
           [] k = "closure" -> [full |-> "frames.closes.func1", name |-> "func1"]
           [] k = "generic" -> [full |-> "frames.generic[...]", name |-> "generic"]
           [] k = "gmethod" -> [full |-> "frames.(*G[...]).gmethod", name |-> "gmethod"]
           [] k = "iface" -> [full |-> "frames.V.iface", name |-> "iface"]
           [] OTHER -> [full |-> "frames." \o k, name |-> k]]
Kinds == DOMAIN Fns \ {"ask", "begin"}
\* the calls of a stack, the last one first, each through one which picks what is next
RECURSIVE Calls(_)
Picks(k) == [at |-> "down:" \o k, full |-> "frames.down", name |-> "down", pkg |-> "here"]
Frame(k) == [at |-> k, full |-> Fns[k].full, name |-> Fns[k].name, pkg |-> "here"]
Calls(q) == IF q = <<>> THEN <<Frame("begin")>> ELSE LET k == q[Len(q)] IN <<Frame(k), Picks(k)>> \o Calls(SubSeq(q, 1, Len(q) - 1))
All(q) == Calls(Append(q, "ask"))
NoFrame == [at |-> "none", full |-> "", name |-> "", pkg |-> ""]
Far == 1000
Caller(q, above) == IF above = Far THEN NoFrame ELSE All(q)[above + 1]
Stack(q, above, max) == IF above = Far THEN <<>> ELSE [n \in 1..max |-> All(q)[above + n].at]
Judged(q, above, max) == above = Far \/ above + max <= Len(All(q))

(* -------------------------------- source ---------------------------------- *)
\* texts, and what is left of them on one line
Exprs == [e \in {"1", "f(2, x)", "[]int{\n3,\n}", "\"a b\"", "func() {\n}"} |-> CASE e = "[]int{\n3,\n}" -> "[]int{" [] e = "func() {\n}" -> "func() {" [] OTHER -> e]
Vars == {"x", "y"}
Unset == ""
Top(sc) == sc[Len(sc)]
Outside == << [v \in Vars |-> Unset] >>
\* statements before the call
Does(s, sc) == CASE s.k = "set" -> [sc EXCEPT ![Len(sc)] = [@ EXCEPT ![s.v] = s.e]]
                 [] s.k = "both" -> [sc EXCEPT ![Len(sc)] = [v \in Vars |-> "5, 6"]]
                 [] s.k = "open" -> Append(sc, Top(sc))
                 [] s.k = "close" -> SubSeq(sc, 1, Len(sc) - 1)
                 [] s.k = "look" -> sc   \* another such call, which is not the one
First(e) == IF e \in DOMAIN Exprs THEN Exprs[e] ELSE e
\* arguments: variables are what was assigned to them, functions what they do
Arg(a, sc) == CASE a.k = "var" -> [src |-> a.s, as |-> IF a.s \in Vars THEN Top(sc)[a.s] ELSE Unset]
                [] a.k = "fn" -> [src |-> IF a.s = "" THEN "func() {}" ELSE a.s, as |-> Unset]
                [] OTHER -> [src |-> a.s, as |-> Unset]
Forms == [f \in {"plain", "sel", "deep", "assign", "if", "defer", "busy", "inner"} |->
           CASE f = "sel" -> [name |-> "p.look", all |-> "p.look"]
             [] f = "deep" -> [name |-> "look", all |-> "p.q.look"]
             [] OTHER -> [name |-> "look", all |-> "look"]]
Short(a) == IF a.as = Unset THEN First(a.src) ELSE First(a.as)
Look(form, args, sc) ==
    LET as == [i \in DOMAIN args |-> Arg(args[i], sc)] IN
    [name |-> Forms[form].name, all |-> Forms[form].all, args |-> as, short |-> [i \in 1..3 |-> IF i <= Len(as) THEN Short(as[i]) ELSE "here"]]
=============================================================================
