------------------------------- MODULE Ideals -------------------------------
(***************************************************************************)
(* What an ideal of spinor expressions may and must contain.  An ideal is  *)
(* observed through its generators (polynomials in the spinor components   *)
(* or in the brackets, shown as monomials) and through membership answers; *)
(* its variety through phase-space points over Z/m on which the defining   *)
(* expressions vanish.  A point offered by the implementation counts only  *)
(* after the specification has checked that it lies on the variety.        *)
(***************************************************************************)
EXTENDS Expr, Json, IOUtils

Recs == JsonDeserialize(IOEnv["DIN"])
M == 46337

PtOf(ls) == [k \in 1..Len(ls) |-> [r |-> ls[k][1], l |-> ls[k][2], P |-> ls[k][3]]]
Vanish(pt, e) == LET v == EvPt(M, pt, e) IN v # Undef /\ \A a \in 1..Len(v) : \A b \in 1..Len(v[1]) : v[a][b] = 0
OnVariety(pt, defs) == MomCons(M, pt) /\ (\A k \in 1..Len(pt) : Coherent(M, pt[k])) /\ \A j \in 1..Len(defs) : Vanish(pt, defs[j])

\* value of a variable: a b are the components of |i>, c d those of [i|; A B are the brackets
Var(pt, v) == CASE v[1] = "a" -> pt[v[2]].r[1][1] [] v[1] = "b" -> pt[v[2]].r[2][1]
                [] v[1] = "c" -> pt[v[2]].l[1][1] [] v[1] = "d" -> pt[v[2]].l[1][2]
                [] v[1] = "A" -> AngB(M, pt, v[2], v[3]) [] v[1] = "B" -> SqrB(M, pt, v[2], v[3])
RECURSIVE MonoVal(_, _, _, _), PolyVal(_, _, _)
RECURSIVE Pow(_, _)
Pow(x, e) == IF e = 0 THEN 1 ELSE (x * Pow(x, e - 1)) % M
MonoVal(pt, mo, k, acc) == IF k > Len(mo) THEN acc ELSE MonoVal(pt, mo, k + 1, (acc * Pow(Var(pt, mo[k][1]), mo[k][2])) % M)
PolyVal(pt, p, k) == IF k > Len(p) THEN 0 ELSE (MonoVal(pt, p[k][2], 1, p[k][1] % M) + PolyVal(pt, p, k + 1)) % M
AllVanish(pt, gens) == \A j \in 1..Len(gens) : PolyVal(pt, gens[j], 1) = 0
\* some generator fails away from the variety: the generators cut out no more than the variety
Cuts(pt, gens) == \E j \in 1..Len(gens) : PolyVal(pt, gens[j], 1) # 0

Good(r) == {k \in 1..Len(r.pts) : OnVariety(PtOf(r.pts[k]), r.defs)}
Off(r) == {k \in 1..Len(r.off) : LET pt == PtOf(r.off[k]) IN MomCons(M, pt) /\ \E j \in 1..Len(r.defs) : ~Vanish(pt, r.defs[j])}
g(r) == <<r.perm, r.par>>

GeneratorsHold(r) == \A k \in Good(r) : AllVanish(PtOf(r.pts[k]), r.gens) /\ AllVanish(PtOf(r.pts[k]), r.slice)
GeneratorsCut(r) == \A k \in Off(r) : Cuts(PtOf(r.off[k]), r.gens)
ImageHolds(r) == \A k \in Good(r) : AllVanish(Image(M, PtOf(r.pts[k]), g(r)), r.imggens)
ImageCuts(r) == \A k \in Off(r) : Cuts(Image(M, PtOf(r.off[k]), g(r)), r.imggens)
\* the relabelled expressions vanish on the image points (the specification's own reading of "image")
Members(r) == \A j \in 1..Len(r.qs) : LET q == r.qs[j] IN
    /\ q.role = "in" => q.member
    /\ q.member => \A k \in Good(r) : Vanish(PtOf(r.pts[k]), q.ast)
ImageMembers(r) == \A j \in 1..Len(r.imgqs) : LET q == r.imgqs[j] IN
    /\ q.role = "in" => q.member
    /\ q.member => \A k \in Good(r) : Vanish(Image(M, PtOf(r.pts[k]), g(r)), q.ast)
SameIdeal(r) == r.same
Roundtrip(r) == r.roundtrip

\* orbits of sets of brackets under relabelling and parity
Br(e) == <<e[1], {e[2], e[3]}>>
BrSet(es) == {Br(es[j]) : j \in 1..Len(es)}
MoveBr(s, b) == <<IF s[2] THEN (IF b[1] = "ang" THEN "sqr" ELSE "ang") ELSE b[1], {s[1][x] : x \in b[2]}>>
MoveSet(s, S) == {MoveBr(s, b) : b \in S}
AllPerms(n) == {f \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => f[a] # f[b]}
Orbit(n, S) == {MoveSet(<<f, FALSE>>, S) : f \in AllPerms(n)}     \* the symmetries of zero phase weights: relabellings
Classes(r) == r.classes = <<>> \/
    LET S == BrSet(r.defs)
        reps == [j \in 1..Len(r.classes) |-> MoveSet(r.classes[j], S)]
    IN /\ {reps[j] : j \in 1..Len(reps)} = Orbit(r.n, S)
       /\ Len(reps) = Cardinality(Orbit(r.n, S))

Faults(r) == (IF GeneratorsHold(r) THEN {} ELSE {"generators do not vanish on the variety"})
        \cup (IF GeneratorsCut(r) THEN {} ELSE {"generators vanish off the variety"})
        \cup (IF ImageHolds(r) THEN {} ELSE {"image does not vanish on the image points"})
        \cup (IF ImageCuts(r) THEN {} ELSE {"image vanishes off the image of the variety"})
        \cup (IF Members(r) THEN {} ELSE {"membership"})
        \cup (IF ImageMembers(r) THEN {} ELSE {"membership in the image"})
        \cup (IF SameIdeal(r) THEN {} ELSE {"image differs from the ideal of the relabelled expressions"})
        \cup (IF Roundtrip(r) THEN {} ELSE {"image under the inverse does not return"})
        \cup (IF Classes(r) THEN {} ELSE {"equivalence class"})

\* coordinate subspaces: membership is vanishing on generic points
CPts(r) == [p \in 1..Len(r.pts) |-> [j \in 1..r.n |-> [r |-> r.pts[p][j][1], l |-> r.pts[p][j][2], P |-> OuterP(M, r.pts[p][j][1], r.pts[p][j][2])]]]
OnAll(pts, e) == \A p \in 1..Len(pts) : Vanish(pts[p], e)
CoordFaults(r) ==
    LET pts == CPts(r)
        img == [p \in 1..Len(pts) |-> Image(M, pts[p], g(r))]
    IN (IF \A j \in 1..Len(r.qs) : r.qs[j].member = OnAll(pts, r.qs[j].ast) THEN {} ELSE {"membership in an ideal of components"})
       \cup (IF \A j \in 1..Len(r.qs) : r.qs[j].imember = OnAll(img, r.qs[j].ast) THEN {} ELSE {"membership in the image of an ideal of components"})
       \cup (IF r.same THEN {} ELSE {"ideals of the same components differ"})
IsCoord(r) == "open" \in DOMAIN r

VARIABLE i
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judge == i > 0 => LET F == IF IsCoord(Recs[i]) THEN CoordFaults(Recs[i]) ELSE Faults(Recs[i]) IN F = {} \/ \A f \in F : PrintT(<<"FAULT", f, Recs[i].key>>)
Done == i = Len(Recs) => PrintT(<<"DONE", Cardinality({k \in 1..Len(Recs) : ~IsCoord(Recs[k]) /\ Good(Recs[k]) # {}})>>)
=============================================================================
