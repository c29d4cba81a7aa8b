------------------------------ MODULE FramesMC ------------------------------
(* Every stack, every program up to the bounds.                                *)
EXTENDS Frames
CONSTANTS MaxDepth, MaxLen
VARIABLES q, prog, sc, act
vars == <<q, prog, sc, act>>
View == <<q, prog>>
Init == q = <<>> /\ prog = <<>> /\ sc = Outside /\ act = [op |-> "init"]
Stmts == {[k |-> "set", v |-> v, e |-> e] : v \in Vars, e \in {"1", "f(2, x)", "[]int{\n3,\n}"}} \cup {[k |-> "open", e |-> e] : e \in {"{", "if ok {", "func() {"}}
         \cup {[k |-> "both"], [k |-> "close"], [k |-> "look"]}
A(k, s) == [k |-> k, s |-> s]
Args == { <<>>, <<A("var", "x")>>, <<A("var", "y"), A("lit", "7"), A("var", "x")>>, <<A("fn", "g(x)"), A("fn", "")>>, <<A("var", "z"), A("lit", "x+1")>>, <<A("lit", "[]int{\n3,\n}"), A("var", "x")>> }
Push == /\ prog = <<>> /\ Len(q) < MaxDepth
        /\ \E k \in Kinds : q' = Append(q, k) /\ act' = [op |-> "push"] /\ UNCHANGED <<prog, sc>>
Write == /\ q = <<>> /\ Len(prog) < MaxLen
         /\ \E s \in Stmts : /\ (s.k = "close" => Len(sc) > 1)
                             /\ prog' = Append(prog, s) /\ sc' = Does(s, sc) /\ act' = [op |-> "push"] /\ UNCHANGED q
Asks == /\ UNCHANGED <<q, prog, sc>>
        /\ \/ prog = <<>> /\ \E n \in 0..2 * Len(q) + 2 \cup {Far} : act' = [op |-> "caller", q |-> q, above |-> n, ret |-> Caller(q, n)]
           \/ prog = <<>> /\ \E n \in 0..2 * Len(q) + 2 \cup {Far}, m \in 0..2 * Len(q) + 3 : Judged(q, n, m) /\ act' = [op |-> "stack", q |-> q, above |-> n, max |-> m, ret |-> Stack(q, n, m)]
           \/ q = <<>> /\ \E f \in DOMAIN Forms, a \in Args : (f # "plain" => Len(prog) + 1 < MaxLen) /\ act' = [op |-> "look", prog |-> prog, form |-> f, args |-> a, ret |-> Look(f, a, sc)]
Next == Push \/ Write \/ Asks
Spec == Init /\ [][Next]_vars
Emit == act'.op = "push" \/ PrintT(ToJson([f |-> [x |-> 0], t |-> [x |-> 0], a |-> act', l |-> 1]))
\* a block inherits what is assigned, and takes what it assigns with it
Scoped == [][Len(sc') < Len(sc) => Top(sc') = sc[Len(sc) - 1]]_vars
Inherits == [][Len(sc') > Len(sc) => Top(sc') = Top(sc)]_vars
\* a stack from one frame further is that stack without its first
Shifts == [][act'.op = "stack" /\ act'.max > 1 /\ act'.above # Far => Stack(q, act'.above + 1, act'.max - 1) = Tail(act'.ret)]_vars
=============================================================================
