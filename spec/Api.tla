--------------------------------- MODULE Api ---------------------------------
(* An object bound to an API: which field crosses in which direction. A field  *)
(* is a record: name (on the wire), decl [in, out, req, auth], hidden (not     *)
(* exported), reg (its value when it was registered). Values: "zero" or others.*)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Tagged(f) == f.decl.in \/ f.decl.out \/ f.decl.auth
\* an API can't fill or read a field which is not exported; there is one identity
Registrable(fs) == /\ \A n \in DOMAIN fs : fs[n].hidden => ~Tagged(fs[n])
                   /\ Cardinality({n \in DOMAIN fs : fs[n].decl.auth}) <= 1
\* what the wire carries under a name: a sequence of [n, v]
OnWire(w, name) == IF \E k \in DOMAIN w : w[k].n = name THEN w[CHOOSE k \in DOMAIN w : w[k].n = name].v ELSE "absent"
\* a field when the operation starts, "reject" if it can't start
Starts(f, w, id) ==
  IF f.decl.auth THEN CASE id = "none" -> IF f.decl.req THEN {"reject"} ELSE {"zero"}
                        [] id = "bad" -> {"reject"}
                        [] OTHER -> {id}
  ELSE IF f.decl.in THEN LET p == OnWire(w, f.name) IN
         CASE p \in {"absent", "zero"} -> IF f.decl.req THEN {"reject"} ELSE {"zero"}
           [] p = "null" -> IF f.decl.req THEN {"reject"} ELSE {"reject", "zero"}
           [] p = "bad" -> {"reject"}
           [] OTHER -> {p}
  ELSE IF f.decl.out THEN {"zero", f.reg}
  ELSE {f.reg}
Rejected == [ok |-> FALSE, vals |-> <<>>]
\* everything the operation may start with
Recv(fs, w, id) ==
  LET o == [n \in DOMAIN fs |-> Starts(fs[n], w, id)]
      all == {v \in [DOMAIN fs -> UNION {o[n] : n \in DOMAIN fs}] : \A n \in DOMAIN fs : v[n] \in o[n]}
  IN {IF \E n \in DOMAIN fs : v[n] = "reject" THEN Rejected ELSE [ok |-> TRUE, vals |-> v] : v \in all}
\* is this an answer of Recv? (without enumerating all of them)
IsRecv(fs, w, id, r) ==
  LET o == [n \in DOMAIN fs |-> Starts(fs[n], w, id)] IN
  IF r.ok THEN Len(r.vals) = Len(fs) /\ \A n \in DOMAIN fs : r.vals[n] # "reject" /\ r.vals[n] \in o[n]
  ELSE \E n \in DOMAIN fs : "reject" \in o[n]
\* the names and values in a message: those of the fields which go that way, and nothing else
Message(fs, vals, dir) == {[n |-> fs[n].name, v |-> vals[n]] : n \in {k \in DOMAIN fs : IF dir = "in" THEN fs[k].decl.in ELSE fs[k].decl.out}}
\* the object of the client after the response
Back(fs, vals, w) == [n \in DOMAIN fs |-> IF fs[n].decl.out /\ OnWire(w, fs[n].name) # "absent" THEN OnWire(w, fs[n].name) ELSE vals[n]]
Fails(fs, w) == \E n \in DOMAIN fs : fs[n].decl.out /\ OnWire(w, fs[n].name) = "bad"

CONSTANTS Types, Ids
VARIABLES st, act
vars == <<st, act>>
View == st
D(i, o, r, a) == [in |-> i, out |-> o, req |-> r, auth |-> a]
Decls == {D(i, o, r, a) : i \in BOOLEAN, o \in BOOLEAN, r \in BOOLEAN, a \in BOOLEAN} \ {D(TRUE, o, r, TRUE) : o \in BOOLEAN, r \in BOOLEAN}
Wires(name) == {<<>>} \cup {<<[n |-> name, v |-> v]>> : v \in {"zero", "null", "v2", "bad"}} \cup {<<[n |-> "GoName", v |-> "v2"]>>, <<[n |-> "x", v |-> "bad"], [n |-> name, v |-> "v2"]>>}
Fields == {<<[name |-> "f", decl |-> d, hidden |-> h, reg |-> r]>> : d \in Decls, h \in BOOLEAN, r \in {"zero", "v1"}}
Init == st = 0 /\ act = [op |-> "init"]
Next == /\ UNCHANGED st
        /\ \E t \in Types, fs \in Fields :
             IF ~Registrable(fs) THEN act' = [op |-> "register", type |-> t, fields |-> fs, ret |-> "error"]
             ELSE \/ \E w \in Wires("f"), id \in Ids : \E r \in Recv(fs, w, id) : act' = [op |-> "recv", type |-> t, fields |-> fs, wire |-> w, id |-> id, ret |-> r]
                  \/ \E v \in {"zero", "v3"}, d \in {"in", "out"} : ~fs[1].hidden /\ fs[1].reg = "zero" /\
                       LET m == Message(fs, <<v>>, d) IN act' = [op |-> "send", type |-> t, fields |-> fs, dir |-> d, vals |-> <<v>>, ret |-> IF m = {} THEN <<>> ELSE <<[n |-> "f", v |-> v]>>]
                  \/ \E v \in {"zero", "v3"}, w \in {x \in Wires("f") : \A k \in DOMAIN x : x[k].v \notin {"null"}} : ~fs[1].hidden /\ fs[1].reg = "zero" /\
                       act' = [op |-> "back", type |-> t, fields |-> fs, vals |-> <<v>>, wire |-> w, ret |-> IF Fails(fs, w) THEN Rejected ELSE [ok |-> TRUE, vals |-> Back(fs, <<v>>, w)]]
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([f |-> [s |-> st], t |-> [s |-> st'], a |-> act', l |-> TLCGet("level")]))
\* what the property says, about the specification
OnlyIn == [][act'.op = "recv" /\ act'.ret.ok /\ ~act'.fields[1].decl.in => act'.ret.vals[1] # "v2"]_vars
OnlyOut == [][act'.op = "send" /\ act'.ret # <<>> => IF act'.dir = "in" THEN act'.fields[1].decl.in ELSE act'.fields[1].decl.out]_vars
OnlyBack == [][act'.op = "back" /\ act'.ret.ok /\ ~act'.fields[1].decl.out => act'.ret.vals = act'.vals]_vars
OnlyAuth == [][act'.op = "recv" /\ act'.ret.ok /\ act'.fields[1].decl.auth => act'.ret.vals[1] = (IF act'.id = "none" THEN "zero" ELSE act'.id)]_vars
Needed == [][act'.op = "recv" /\ act'.ret.ok /\ act'.fields[1].decl.req /\ (act'.fields[1].decl.in \/ act'.fields[1].decl.auth) => act'.ret.vals[1] # "zero"]_vars
=============================================================================
