------------------------------- MODULE OpenApi -------------------------------
(* The document of a server: one entry for every path which was registered,    *)
(* made of the fields of the object alone.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Ins(fs) == {n \in DOMAIN fs : fs[n].decl.in}
Outs(fs) == {n \in DOMAIN fs : fs[n].decl.out}
Needs(fs) == {n \in Ins(fs) : fs[n].decl.req}
Security(fs) == IF \A n \in DOMAIN fs : ~fs[n].decl.auth THEN "none"
                ELSE IF \E n \in DOMAIN fs : fs[n].decl.auth /\ fs[n].decl.req THEN "jwt" ELSE "jwt or anonymous"
\* the entry as sets of fields of the schemas
Entry(fs) == [kind |-> "api", in |-> {[n |-> fs[k].name, t |-> fs[k].t] : k \in Ins(fs)}, req |-> {fs[k].name : k \in Needs(fs)},
              out |-> {[n |-> fs[k].name, t |-> fs[k].t] : k \in Outs(fs)}, sec |-> Security(fs)]

CONSTANTS Paths, Max
VARIABLES st, act
vars == <<st, act>>
View == st
D(i, o, r, a) == [in |-> i, out |-> o, req |-> r, auth |-> a]
Decls == {D(i, o, r, a) : i \in BOOLEAN, o \in BOOLEAN, r \in BOOLEAN, a \in BOOLEAN} \ {D(TRUE, o, r, TRUE) : o \in BOOLEAN, r \in BOOLEAN}
Second == {D(TRUE, FALSE, FALSE, FALSE), D(FALSE, TRUE, FALSE, FALSE), D(TRUE, FALSE, TRUE, FALSE), D(FALSE, FALSE, FALSE, TRUE), D(FALSE, TRUE, TRUE, FALSE), D(FALSE, TRUE, FALSE, TRUE)}
F(name, d) == [name |-> name, decl |-> d, t |-> "any"]
One == {<<F("f", d)>> : d \in Decls}
Two == {<<F("f", d), F("g", e)>> : d \in Decls, e \in Second} 
Objects == One \cup {o \in Two : ~(o[1].decl.auth /\ o[2].decl.auth)}
Has(s, name) == IF \E x \in s : x.n = name THEN "yes" ELSE "no"
Shown(fs) == [kind |-> "api", in |-> [f |-> Has(Entry(fs).in, "f"), g |-> Has(Entry(fs).in, "g")], req |-> [f |-> "f" \in Entry(fs).req, g |-> "g" \in Entry(fs).req],
              out |-> [f |-> Has(Entry(fs).out, "f"), g |-> Has(Entry(fs).out, "g")], sec |-> Entry(fs).sec]
Other(kind) == [kind |-> kind]
Absent == [kind |-> "absent"]
Init == st = [p \in Paths |-> Absent] /\ act = [op |-> "init"]
\* two fields only if nothing or little is registered, to keep the graph small
Small == Cardinality({p \in Paths : st[p] # Absent}) < Max
\* what a client sees: the document, and which paths are served at all
Seen(s) == [doc |-> s, served |-> [p \in Paths |-> s[p] # Absent]]
Register(p, fs) == st[p] = Absent /\ Small /\ st' = [st EXCEPT ![p] = Shown(fs)] /\ act' = [op |-> "register", path |-> p, fields |-> fs, ret |-> Seen(st')]
Generic(p, how) == st[p] = Absent /\ Small /\ st' = [st EXCEPT ![p] = Other(how)] /\ act' = [op |-> how, path |-> p, ret |-> Seen(st')]
\* a registration which fails leaves nothing behind
Whys == {"schema", "schema-out", "tag", "two-auth", "hidden", "no-url", "bad-url", "value"}
Refused(p, why) == UNCHANGED st /\ act' = [op |-> "refused", path |-> p, why |-> why, ret |-> Seen(st)]
Again(p, how) == st[p] # Absent /\ UNCHANGED st /\ act' = [op |-> "again", path |-> p, how |-> how, ret |-> Seen(st)]
Look == UNCHANGED st /\ act' = [op |-> "look", ret |-> Seen(st)]
Next == \/ \E p \in Paths : (\E fs \in IF st = [q \in Paths |-> Absent] THEN Objects ELSE One : Register(p, fs)) \/ \E how \in {"request", "handle", "handlefunc"} : Generic(p, how)
        \/ \E p \in Paths, why \in Whys : Refused(p, why)
        \/ \E p \in Paths, how \in {"register", "request", "handle"} : Again(p, how)
        \/ Look
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> [s |-> st], t |-> [s |-> st'], a |-> act', l |-> TLCGet("level")]))
OthersKept == [][\A p \in Paths : st[p] # Absent => st'[p] = st[p]]_vars
=============================================================================
