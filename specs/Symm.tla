-------------------------------- MODULE Symm --------------------------------
(***************************************************************************)
(* Symmetries compatible with phase weights.  The state space is the set   *)
(* of all weight tuples of the configured sizes (exhaustive) plus recorded *)
(* larger ones; every state carries the recorded answer of the code.       *)
(***************************************************************************)
EXTENDS Spinors, Json, IOUtils, SequencesExt, FiniteSetsExt

Rec == JsonDeserialize(IOEnv["TRACE"])
\* Rec.weights : sequence of [w, out], out a sequence of <<perm, par>>
\* Rec.inverses : sequence of [perm, par, inv, invpar] ; Rec.full : sequence of [n, out] ; Rec.ident : sequence of [n, perm, par]
\* Rec.dims : sequence of [n, lo, hi] : all tuples of length n over lo..hi must have been recorded
Neg1(w) == [k \in 1..Len(w) |-> 0 - w[k]]
Act(w, s) == [k \in 1..Len(w) |-> w[s[k]]]
PermSeqs(n) == {p \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => p[a] # p[b]}
P1 == PermSeqs(1)  P2 == PermSeqs(2)  P3 == PermSeqs(3)  P4 == PermSeqs(4)  P5 == PermSeqs(5)  P6 == PermSeqs(6)
PS(n) == CASE n = 1 -> P1 [] n = 2 -> P2 [] n = 3 -> P3 [] n = 4 -> P4 [] n = 5 -> P5 [] n = 6 -> P6
Expected(w) == {<<p, FALSE>> : p \in {q \in PS(Len(w)) : Act(w, q) = w}}
          \cup {<<p, TRUE>> : p \in {q \in PS(Len(w)) : Act(w, q) = Neg1(w) /\ Act(w, q) # w}}
AsSet(out) == {<<out[k][1], out[k][2]>> : k \in 1..Len(out)}

WeightClauses(r) ==
    LET got == AsSet(r.out)
    IN (IF got # Expected(r.w) THEN {"C20:wrong set of symmetries"} ELSE {})
       \cup (IF Cardinality(got) # Len(r.out) THEN {"C20:a symmetry is repeated"} ELSE {})
       \cup (IF <<IdPerm(Len(r.w)), FALSE>> \notin got THEN {"C20:identity missing"} ELSE {})
InvClauses(r) == (IF r.inv # InvPerm(r.perm) THEN {"C20:wrong inverse"} ELSE {}) \cup (IF r.invpar # r.par THEN {"C20:inverse changes parity"} ELSE {})
FullClauses(r) == (IF {x[1] : x \in AsSet(r.out)} # PS(r.n) THEN {"C20:full set incomplete"} ELSE {})
                  \cup (IF Len(r.out) # Cardinality(PS(r.n)) THEN {"C20:full set repeats"} ELSE {})
IdClauses(r) == IF r.perm # IdPerm(r.n) \/ r.par THEN {"C20:identity"} ELSE {}
Dom(d) == [1..d.n -> d.lo..d.hi]
Covered == \A k \in 1..Len(Rec.dims) : \A w \in Dom(Rec.dims[k]) : TRUE
Recorded == {Rec.weights[k].w : k \in 1..Len(Rec.weights)}
Complete == \A k \in 1..Len(Rec.dims) : \A w \in Dom(Rec.dims[k]) : [j \in 1..Len(w) |-> w[j]] \in Recorded

VARIABLES phase, i, bad
vars == <<phase, i, bad>>
Init == phase = 1 /\ i = 1 /\ bad = <<>>
List(p) == CASE p = 1 -> Rec.weights [] p = 2 -> Rec.inverses [] p = 3 -> Rec.full [] p = 4 -> Rec.ident
Cl(p, r) == CASE p = 1 -> WeightClauses(r) [] p = 2 -> InvClauses(r) [] p = 3 -> FullClauses(r) [] p = 4 -> IdClauses(r)
Next == \/ /\ phase <= 4 /\ i <= Len(List(phase))
           /\ LET v == Cl(phase, List(phase)[i]) IN bad' = IF v = {} THEN bad ELSE Append(bad, <<phase, i, SetToSeq(v)>>)
           /\ i' = i + 1 /\ phase' = phase
        \/ /\ phase <= 4 /\ i > Len(List(phase)) /\ phase' = phase + 1 /\ i' = 1 /\ bad' = bad
        \/ /\ phase = 5
           /\ JsonSerialize(IOEnv["VERDICT"], [bad |-> bad, complete |-> Complete])
           /\ phase' = 6 /\ UNCHANGED <<i, bad>>
Spec == Init /\ [][Next]_vars

\* laws of the specification itself: the expected sets are groups
GroupLaw == (phase = 1 /\ i <= Len(List(1)) /\ Len(List(1)[i].w) <= 4) =>
               LET E == Expected(List(1)[i].w)
               IN \A g \in E : SymInv(g) \in E
=============================================================================
