------------------------------- MODULE Machine ------------------------------
(***************************************************************************)
(* The state machine of the library: a store of named objects (phase-space *)
(* points and single particles) and the operations a user performs on it.  *)
(*                                                                         *)
(* store : 0..H -> object      (the object with kind "none" is absent)     *)
(* object: [kind, legs, ms, ref, fld]                                      *)
(*   kind "Ps" (phase-space point), "P" (one particle, legs of length 1)   *)
(*   ms   sequence of <<name, "v", <<value>>>> or <<name, "e", labels>>    *)
(* leg   : [r, l, P, sp]   see Spinors; sp in {"none", "u", "d"}           *)
(*                                                                         *)
(* Free marks a component the specification does not constrain, Unk one the *)
(* projection could not express in Z/m.                                    *)
(***************************************************************************)
EXTENDS Expr

Free == << <<0 - 2>> >>
Unk == << <<0 - 1>> >>
Known(A) == A # <<>> /\ A[1][1] >= 0
HasSp(g) == Known(g.r) /\ Known(g.l)
NoObj == [kind |-> "none", legs |-> <<>>, ms |-> <<>>, ref |-> <<>>, fld |-> ""]

\* legs -------------------------------------------------------------------
SLeg(m, r, l) == [r |-> r, l |-> l, P |-> OuterP(m, r, l), sp |-> "none"]
\* a leg given by its momentum only: the split into spinors is not fixed
PLeg(P) == [r |-> Free, l |-> Free, P |-> P, sp |-> "none"]

SetR(m, g, r) == [g EXCEPT !.r = r, !.P = IF Known(g.l) THEN OuterP(m, r, g.l) ELSE Free]
SetL(m, g, l) == [g EXCEPT !.l = l, !.P = IF Known(g.r) THEN OuterP(m, g.r, l) ELSE Free]

Reps == {"rd", "ru", "ld", "lu", "P", "Pb", "p", "pd"}
\* assignment of one representation; val is the assigned array
SetRep(m, im, g, rep, val) ==
    CASE rep = "rd" -> SetR(m, g, val)
      [] rep = "ru" -> SetR(m, g, DownFromUp_r(m, val))
      [] rep = "ld" -> SetL(m, g, val)
      [] rep = "lu" -> SetL(m, g, DownFromUp_l(m, val))
      [] rep = "P"  -> [PLeg(val) EXCEPT !.sp = g.sp]
      [] rep = "Pb" -> [PLeg(Flip(m, val)) EXCEPT !.sp = g.sp]
      [] rep = "p"  -> [PLeg(Slash(m, im, val)) EXCEPT !.sp = g.sp]
      [] rep = "pd" -> [PLeg(Slash(m, im, LowerMu(m, val))) EXCEPT !.sp = g.sp]
\* one component of a spinor overwritten
Poked(g, op) == IF op.rep = "rd" THEN [g.r EXCEPT ![op.comp][1] = op.val] ELSE [g.l EXCEPT ![1][op.comp] = op.val]
\* what each representation of a leg must be (the array read back)
RepVal(m, im, g, rep) ==
    CASE rep = "rd" -> g.r
      [] rep = "ru" -> IF Known(g.r) THEN RU(m, g) ELSE Free
      [] rep = "ld" -> g.l
      [] rep = "lu" -> IF Known(g.l) THEN LU(m, g) ELSE Free
      [] rep = "P"  -> g.P
      [] rep = "Pb" -> Flip(m, g.P)

\* points -----------------------------------------------------------------
HasAllSp(legs) == \A k \in 1..Len(legs) : HasSp(legs[k]) /\ legs[k].sp = "none"
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* positions lo+1, lo+1+st, ... up to hi: slices count from zero
SliceOf(s, lo, hi, st) == LET top == IF hi > Len(s) THEN Len(s) ELSE hi
                              cnt == IF lo >= top THEN 0 ELSE 1 + (top - lo - 1) \div st
                          IN [k \in 1..cnt |-> s[lo + 1 + (k - 1) * st]]
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))

TranspA(A) == IF A = <<>> \/ A[1][1] < 0 THEN A ELSE Transp(A)
ParLeg(m, g) ==
    IF g.sp # "none" THEN [g EXCEPT !.r = Free, !.l = Free, !.P = Transp(g.P)]
    ELSE [r |-> TranspA(g.l), l |-> TranspA(g.r), P |-> Transp(g.P), sp |-> g.sp]
ImageLegs(m, legs, perm, par) ==
    LET inv == InvPerm(perm)
    IN [k \in 1..Len(legs) |-> IF par THEN ParLeg(m, legs[inv[k]]) ELSE legs[inv[k]]]
\* a massive spin leg under parity: spinors swapped up to signs of product -1
SpinParOK(m, old, new) ==
    \E s \in {1, m - 1} :
        /\ new.r = MScale(m, s, Transp(old.l))
        /\ new.l = MScale(m, Neg(m, s), Transp(old.r))

ClusterLegs(m, legs, corners, spins) ==
    [k \in 1..Len(corners) |->
        IF Len(corners[k]) = 1 THEN legs[corners[k][1]]
        ELSE IF spins[k][1] # "none"
             THEN LET q == MassiveLeg(m, legs[corners[k][1]], legs[corners[k][2]], spins[k][1], spins[k][2])
                  IN [r |-> q.r, l |-> q.l, P |-> q.P, sp |-> spins[k][1]]
        ELSE PLeg(SumP(m, legs, corners[k]))]

FixLegs(m, legs, A, B, axis) ==
    LET q == FixMom(m, [k \in 1..Len(legs) |-> [r |-> legs[k].r, l |-> legs[k].l, P |-> legs[k].P]], A, B, axis)
    IN [k \in 1..Len(legs) |-> [r |-> q[k].r, l |-> q[k].l, P |-> q[k].P, sp |-> legs[k].sp]]
\* real repair along one axis: pA is lightlike in the (0, axis) plane, pB absorbs the rest
RealFixMomA(m, im, legs, A, B, axis) ==
    LET K == FourMom(m, im, SumP(m, legs, Others(Len(legs), A, B)))
        K2 == Mass2(m, SumP(m, legs, Others(Len(legs), A, B)))
        x == Neg(m, Quo(m, K2, Mul(m, 2, Sub(m, K[1], K[axis + 1]))))
    IN [q \in 1..4 |-> IF q = 1 \/ q = axis + 1 THEN x ELSE 0]
RealFixDefined(m, im, legs, A, B, axis) ==
    LET K == FourMom(m, im, SumP(m, legs, Others(Len(legs), A, B)))
    IN IsUnit(m, Sub(m, K[1], K[axis + 1]))

\* momentum arithmetic over legs of stored objects --------------------------
\* trees: <<"leg", h, i>> <<"add"|"sub", x, y>> <<"neg", x>> <<"add0"|"radd0"|"sub0", x>> <<"mul"|"rmul"|"div", x, c>> <<"sum", <<x, ...>>>>
RECURSIVE Arith(_, _, _)
Arith(m, store, t) ==
    CASE t[1] = "leg" -> store[t[2]].legs[t[3]].P
      [] t[1] = "add" -> MAdd(m, Arith(m, store, t[2]), Arith(m, store, t[3]))
      [] t[1] = "sub" -> MSub(m, Arith(m, store, t[2]), Arith(m, store, t[3]))
      [] t[1] = "neg" -> MScale(m, m - 1, Arith(m, store, t[2]))
      [] t[1] \in {"mul", "rmul"} -> MScale(m, t[3], Arith(m, store, t[2]))
      [] t[1] = "div" -> MScale(m, Inv(m, t[3]), Arith(m, store, t[2]))
      [] t[1] \in {"add0", "radd0", "sub0"} -> Arith(m, store, t[2])          \* the number zero is neutral
      [] t[1] = "sum" -> LET RECURSIVE go(_)
                             go(k) == IF k > Len(t[2]) THEN Zero22 ELSE MAdd(m, Arith(m, store, t[2][k]), go(k + 1))
                         IN go(1)

\* masses: <<name, "v", <<value>>>> or an alias of a Mandelstam <<name, "e", labels>> -------------
SetMass(ms, e) == SelectSeq(ms, LAMBDA x : x[1] # e[1]) \o <<e>>
Img(s) == {s[k] : k \in 1..Len(s)}
\* an alias survives clustering iff its labels are a union of corners
CornersIn(corners, labs) == SelectSeq(Upto(Len(corners)), LAMBDA k : Img(corners[k]) \subseteq Img(labs))
AliasExpressible(corners, labs) == UNION {Img(corners[CornersIn(corners, labs)[k]]) : k \in 1..Len(CornersIn(corners, labs))} = Img(labs)
ClusterMass(corners, e) == IF e[2] = "e" /\ AliasExpressible(corners, e[3]) THEN <<e[1], "e", CornersIn(corners, e[3])>> ELSE e
MsOf(ms) == {<<ms[k][1], ms[k][2], IF ms[k][2] = "e" THEN Img(ms[k][3]) ELSE {ms[k][3][1]}>> : k \in 1..Len(ms)}
MassFun(ms) == [x \in {ms[k][1] : k \in 1..Len(ms)} |->
                  LET k == CHOOSE j \in 1..Len(ms) : ms[j][1] = x
                  IN IF ms[k][2] = "v" THEN <<"v", ms[k][3][1]>> ELSE <<"e", <<"s", ms[k][3]>>>>]

\* polarisations, without their factor of sqrt(2): matrices with dot product LDot ---------------
\* e+ = sqrt(2) |i]<q| / <q|i>     e- = sqrt(2) |q]<i| / [i|q]
PolDen(m, g, q, hel) == IF hel = "+" THEN MatMul(m, RU(m, q), g.r)[1][1] ELSE MatMul(m, g.l, LU(m, q))[1][1]
PolMat(m, g, q, hel) == MScale(m, Inv(m, PolDen(m, g, q, hel)),
                               IF hel = "+" THEN MatMul(m, LU(m, g), RU(m, q)) ELSE MatMul(m, LU(m, q), RU(m, g)))
PolDefined(m, g, q, hel) == HasSp(g) /\ HasSp(q) /\ IsUnit(m, PolDen(m, g, q, hel))
PolEE(m, a, ha, b, hb, q) == Mul(m, 2, LDot(m, PolMat(m, a, q, ha), PolMat(m, b, q, hb)))          \* e_a . e_b
PolEP(m, a, ha, P, q) == Mul(m, 2, LDot(m, PolMat(m, a, q, ha), P))                               \* sqrt(2) e_a . p

\* the complement of a set of labels, and the labels of a clustered alias ------
Complement(n, L) == SelectSeq(Upto(n), LAMBDA k : \A j \in 1..Len(L) : L[j] # k)

ObjEq(a, b) == /\ a.kind = b.kind
               /\ Len(a.legs) = Len(b.legs)
               /\ \A k \in 1..Len(a.legs) : a.legs[k].P = b.legs[k].P
=============================================================================
