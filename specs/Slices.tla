------------------------------- MODULE Slices -------------------------------
(***************************************************************************)
(* One- and two-parameter families of phase-space points.  Every spinor    *)
(* component of a slice is a polynomial in the parameters, shown as a      *)
(* sequence of monomials <<e1, e2, c>> over Z/m.  A polynomial identity is *)
(* decided on a grid with more values per parameter than its degree (the   *)
(* ring has characteristic 31 or more, so distinct grid values differ by   *)
(* units and the identity holds for every parameter value).                *)
(***************************************************************************)
EXTENDS Expr, Json, IOUtils

Recs == JsonDeserialize(IOEnv["SIN"])

RECURSIVE Pow(_, _, _)
Pow(m, x, e) == IF e = 0 THEN 1 ELSE (x * Pow(m, x, e - 1)) % m
RECURSIVE SumMono(_, _, _, _, _)
SumMono(m, p, a, b, k) == IF k > Len(p) THEN 0
                          ELSE ((((p[k][3] * Pow(m, a, p[k][1])) % m) * Pow(m, b, p[k][2])) + SumMono(m, p, a, b, k + 1)) % m
At(m, p, a, b) == SumMono(m, p, a, b, 1)
MatAt(m, A, a, b) == [x \in 1..Len(A) |-> [y \in 1..Len(A[x]) |-> At(m, A[x][y], a, b)]]
\* the member of the family at one value of the parameters
Member(r, a, b) == TLCEval([k \in 1..r.n |->
    LET R == MatAt(r.m, r.legs[k][1], a, b)
        L == MatAt(r.m, r.legs[k][2], a, b)
    IN [r |-> R, l |-> L, P |-> OuterP(r.m, R, L)]])
Degree(m, p) == LET D == {IF p[k][1] > p[k][2] THEN p[k][1] ELSE p[k][2] : k \in {j \in 1..Len(p) : p[j][3] % m # 0}} IN IF D = {} THEN 0 ELSE CHOOSE d \in D : \A e \in D : e <= d

Top(r) == IF r.alg = "biv" THEN 4 ELSE 8
Grid(r) == IF r.alg = "biv" THEN (0..Top(r)) \X (0..Top(r)) ELSE (0..Top(r)) \X {0}
Family(r) == TLCEval([g \in Grid(r) |-> Member(r, g[1], g[2])])
Conserves(r, F) == \A g \in Grid(r) : MomCons(r.m, F[g])
Massless(r, F) == \A g \in Grid(r) : OnShell(r.m, F[g])
Constrained(r, F) == \A g \in Grid(r) : \A j \in 1..Len(r.cons) : EvPt(r.m, F[g], r.cons[j]) = Scal(0)

\* brackets as polynomials: linear in each parameter for the covariant constructions, quadratic for the generic one
LinearAlong(f(_), m) == \A x \in 0..2 : (f(x) - 2 * f(x + 1) + f(x + 2)) % m = 0
QuadraticAlong(f(_), m) == \A x \in 0..2 : (f(x) - 3 * f(x + 1) + 3 * f(x + 2) - f(x + 3)) % m = 0
Lines(r) == IF r.alg = "biv" THEN {<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<1, 0, 0, 1>>, <<0, 1, 1, 0>>, <<1, 0, 0, 2>>, <<0, 1, 2, 0>>} ELSE {<<1, 0, 0, 0>>}
OnLine(r, ln, x) == Member(r, (ln[1] * x + ln[3]) % r.m, (ln[2] * x + ln[4]) % r.m)
Brackets(r) == {<<s, i, j>> : s \in {"A", "S"}, i \in 1..r.n, j \in 1..r.n}
BV(r, pt, b) == IF b[1] = "A" THEN AngB(r.m, pt, b[2], b[3]) ELSE SqrB(r.m, pt, b[2], b[3])
Simple(r) ==
    \A ln \in Lines(r) :
        LET pts == TLCEval([x \in 0..5 |-> OnLine(r, ln, x)])
        IN \A b \in {c \in Brackets(r) : c[2] < c[3]} :
            LET f(x) == BV(r, pts[x], b) IN IF r.alg = "gen" THEN QuadraticAlong(f, r.m) ELSE LinearAlong(f, r.m)
\* the family is not constant in any of its parameters: spinors and brackets move
Moves(r) == \A ln \in (IF r.alg = "biv" THEN {<<1, 0, 0, 0>>, <<0, 1, 0, 0>>} ELSE {<<1, 0, 0, 0>>}) :
    LET p0 == OnLine(r, ln, 0)
        p1 == OnLine(r, ln, 1)
        p2 == OnLine(r, ln, 2)
    IN /\ \E b \in Brackets(r) : BV(r, p0, b) # BV(r, p1, b) \/ BV(r, p0, b) # BV(r, p2, b)
       /\ r.alg = "gen" \/ \A k \in 1..r.n : p0[k].r # p1[k].r /\ p0[k].l # p1[k].l

\* expressions evaluated on the family are the family of values, with the degree of the construction for brackets
Evaluates(r, F) == \A j \in 1..Len(r.values) :
    /\ \A g \in Grid(r) : LET v == EvPt(r.m, F[g], r.exprs[j]) IN v = Undef \/ v = Scal(At(r.m, r.values[j], g[1], g[2]))
    /\ r.exprs[j][1] \in {"ang", "sqr"} => Degree(r.m, r.values[j]) <= (IF r.alg = "gen" THEN 2 ELSE 1)
\* substituting a value gives the member of the family there, as an ordinary point of the same field
Substitutes(r) == \A j \in 1..Len(r.subs) :
    LET s == r.subs[j]
        pt == [k \in 1..r.n |-> [r |-> s.legs[k][1], l |-> s.legs[k][2], P |-> s.legs[k][3]]]
    IN /\ s.ordinary
       /\ pt = Member(r, s.t[1] % r.m, IF r.alg = "biv" THEN s.t[2] % r.m ELSE 0)

\* requests that must not fail: no or one simple constraint, away from the degenerate multiplicities
SureSlice(r) == \/ Len(r.cons) = 0 /\ r.n >= 5
                \/ r.alg # "biv" /\ Len(r.cons) = 1 /\ r.n >= 5 /\ r.cons[1][1] \in {"ang", "sqr"} /\ r.cons[1][2] # r.cons[1][3]

Faults(r) == IF r.raised THEN (IF SureSlice(r) THEN {"unserved"} ELSE {})
             ELSE LET F == Family(r)
                  IN (IF Conserves(r, F) THEN {} ELSE {"momentum conservation"})
                     \cup (IF Massless(r, F) THEN {} ELSE {"mass"})
                     \cup (IF Constrained(r, F) THEN {} ELSE {"constraint"})
                     \cup (IF Simple(r) THEN {} ELSE {"degree"})
                     \cup (IF Moves(r) THEN {} ELSE {"constant"})
                     \cup (IF Evaluates(r, F) THEN {} ELSE {"evaluation"})
                     \cup (IF Substitutes(r) THEN {} ELSE {"substitution"})

VARIABLE i
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judge == i > 0 => LET F == Faults(Recs[i]) IN F = {} \/ \A f \in F : PrintT(<<"FAULT", f, Recs[i].key>>)
Count == i = Len(Recs) => PrintT(<<"SURE", Cardinality({k \in 1..Len(Recs) : SureSlice(Recs[k])}), Cardinality({k \in 1..Len(Recs) : ~Recs[k].raised})>>)
=============================================================================
