------------------------------ MODULE Spinors -------------------------------
(***************************************************************************)
(* Kinematics of one particle and of a phase-space point.                  *)
(*                                                                         *)
(* A particle is a record [r, l, P]:                                       *)
(*   r : lambda_alpha       column spinor(s), 2 x k matrix, or <<>> if none *)
(*   l : lambdabar_alphadot row spinor(s),    k x 2 matrix, or <<>> if none *)
(*   P : slashed momentum with upper indices P^{alphadot alpha}, 2 x 2      *)
(* k = 1 for massless legs, k = 2 for a massive fermion with open spin.     *)
(* A phase-space point is a sequence of particles.                          *)
(***************************************************************************)
EXTENDS Zm

RU(m, p) == Transp(EpsL(m, p.r))                    \* <i|  : lambda^alpha
LU(m, p) == EpsL(m, Transp(p.l))                    \* |i]  : lambdabar^alphadot
UpFromDown_r(m, r) == Transp(EpsL(m, r))
UpFromDown_l(m, l) == EpsL(m, Transp(l))
DownFromUp_r(m, ru) == << <<Neg(m, ru[1][2])>>, <<ru[1][1]>> >>
DownFromUp_l(m, lu) == << <<Neg(m, lu[2][1]), lu[1][1]>> >>

\* lower-index slashed momentum from the upper-index one and back (same involution)
Flip(m, P) == << <<P[2][2], Neg(m, P[1][2])>>, <<Neg(m, P[2][1]), P[1][1]>> >>
             \* (eps . P . eps^T)^T
PBar(m, p) == Flip(m, p.P)

\* P^{alphadot alpha} = |i]<i|  and  Pbar = |i>[i|
OuterP(m, r, l)  == MatMul(m, UpFromDown_l(m, l), UpFromDown_r(m, r))
OuterPb(m, r, l) == MatMul(m, r, l)
MkP(m, r, l) == [r |-> r, l |-> l, P |-> OuterP(m, r, l)]
Leg(m, a, b, c, d) == MkP(m, << <<a>>, <<b>> >>, << <<c, d>> >>)

PbToP(m, Pb) == Flip(m, Pb)

(* Four-momentum, with im a square root of -1 in the ring.                  *)
(* p^mu = 1/2 tr(sigma^mu Pbar)  ;  P = p_mu sigma^mu                        *)
FourMom(m, im, P) ==
    LET Pb == Flip(m, P)
        h  == Inv(m, 2)
    IN << Mul(m, h, Add(m, Pb[1][1], Pb[2][2])),
          Mul(m, h, Add(m, Pb[1][2], Pb[2][1])),
          Mul(m, h, Mul(m, im, Sub(m, Pb[1][2], Pb[2][1]))),
          Mul(m, h, Sub(m, Pb[1][1], Pb[2][2])) >>
LowerMu(m, p) == <<p[1], Neg(m, p[2]), Neg(m, p[3]), Neg(m, p[4])>>
\* slashed momentum (upper) from p^mu :  p_mu sigma^mu
Slash(m, im, p) == << <<Sub(m, p[1], p[4]), Add(m, Neg(m, p[2]), Mul(m, im, p[3]))>>,
                      <<Sub(m, Neg(m, p[2]), Mul(m, im, p[3])), Add(m, p[1], p[4])>> >>

LDot(m, P, Q)  == Mul(m, Inv(m, 2), Trace2(m, MatMul(m, P, Flip(m, Q))))
Mass2(m, P)    == Det2(m, P)

RECURSIVE SumP(_, _, _)
SumP(m, pt, idx) == IF idx = <<>> THEN Zero22 ELSE MAdd(m, pt[Head(idx)].P, SumP(m, pt, Tail(idx)))
Upto(n) == [k \in 1..n |-> k]
TotalMom(m, pt) == SumP(m, pt, Upto(Len(pt)))
MomCons(m, pt)  == TotalMom(m, pt) = Zero22
OnShell(m, pt)  == \A k \in 1..Len(pt) : Mass2(m, pt[k].P) = 0
Coherent(m, p)  == p.r # <<>> /\ p.l # <<>> => p.P = OuterP(m, p.r, p.l)

----------------------------------------------------------------------------
(* Spec of the momentum-conservation repair.                                *)
AngB(m, pt, i, j) == MatMul(m, RU(m, pt[i]), pt[j].r)[1][1]
SqrB(m, pt, i, j) == MatMul(m, pt[i].l, LU(m, pt[j]))[1][1]

Others(n, A, B) == SelectSeq(Upto(n), LAMBDA k : k # A /\ k # B)
\* chirality 1: new |A>,|B> ; chirality 2: new |A],|B]
FixMom(m, pt, A, B, axis) ==
    LET K  == SumP(m, pt, Others(Len(pt), A, B))
        s  == Inv(m, SqrB(m, pt, A, B))
        a  == Inv(m, AngB(m, pt, A, B))
        ruA == MScale(m, s, MatMul(m, pt[B].l, K))
        ruB == MScale(m, Neg(m, s), MatMul(m, pt[A].l, K))
        luA == MScale(m, Neg(m, a), MatMul(m, K, pt[B].r))
        luB == MScale(m, a, MatMul(m, K, pt[A].r))
    IN IF axis = 1
       THEN [pt EXCEPT ![A] = MkP(m, DownFromUp_r(m, ruA), pt[A].l),
                       ![B] = MkP(m, DownFromUp_r(m, ruB), pt[B].l)]
       ELSE [pt EXCEPT ![A] = MkP(m, pt[A].r, DownFromUp_l(m, luA)),
                       ![B] = MkP(m, pt[B].r, DownFromUp_l(m, luB))]
FixDefined(m, pt, A, B, axis) == IF axis = 1 THEN IsUnit(m, SqrB(m, pt, A, B)) ELSE IsUnit(m, AngB(m, pt, A, B))

----------------------------------------------------------------------------
(* Pseudo-random massless points, drawn inside the specification.           *)
RndLeg(m, seed, k) == Leg(m, Rnd(seed, <<k, 1>>, m), Rnd(seed, <<k, 2>>, m), Rnd(seed, <<k, 3>>, m), Rnd(seed, <<k, 4>>, m))
RawPoint(m, seed, n) == [k \in 1..n |-> RndLeg(m, seed, k)]
RECURSIVE RndPoint(_, _, _)
RndPoint(m, seed, n) ==
    LET q == RawPoint(m, seed, n)
    IN IF ~IsUnit(m, SqrB(m, q, n - 1, n)) THEN RndPoint(m, Mix(seed, 5) + 1, n)
       ELSE FixMom(m, q, n - 1, n, 1)

----------------------------------------------------------------------------
(* Symmetries: <<sigma, par>> with sigma a sequence (permutation of 1..n).  *)
Perms(n) == {f \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => f[a] # f[b]}
IdPerm(n) == Upto(n)
InvPerm(s) == [k \in 1..Len(s) |-> CHOOSE j \in 1..Len(s) : s[j] = k]
Compose(t, s) == [k \in 1..Len(s) |-> t[s[k]]]       \* first s, then t
SymCompose(g, h) == <<Compose(g[1], h[1]), g[2] # h[2]>>
SymInv(g) == <<InvPerm(g[1]), g[2]>>
ParityLeg(m, p) ==
    IF p.r = <<>> \/ p.l = <<>> THEN [p EXCEPT !.P = Transp(p.P)]
    ELSE [r |-> Transp(p.l), l |-> Transp(p.r), P |-> Transp(p.P)]
Image(m, pt, g) == LET inv == InvPerm(g[1])
                       moved == [k \in 1..Len(pt) |-> pt[inv[k]]]
                   IN IF g[2] THEN [k \in 1..Len(pt) |-> ParityLeg(m, moved[k])] ELSE moved

----------------------------------------------------------------------------
(* Clustering.  mf maps a leg to its spin-index declaration <<pos, val>>,    *)
(* pos in {"u", "d"}, val in {0, 1, 2} with 0 = open index.                  *)
NegEps(m) == << <<0, m - 1>>, <<1, 0>> >>
HCat(A, B) == << <<A[1][1], B[1][1]>>, <<A[2][1], B[2][1]>> >>     \* two columns side by side
VCat(A, B) == << A[1], B[1] >>                                     \* two rows stacked
MassiveLeg(m, pa, pb, pos, val) ==
    LET r0 == HCat(pa.r, pb.r)
        l0 == VCat(pa.l, pb.l)
        r1 == IF pos = "d" THEN MatMul(m, r0, NegEps(m)) ELSE r0
        l1 == IF pos = "u" THEN MatMul(m, NegEps(m), l0) ELSE l0
        P  == MAdd(m, pa.P, pb.P)
    IN IF val = 0 THEN [r |-> r1, l |-> l1, P |-> P]
       ELSE [r |-> << <<r1[1][val]>>, <<r1[2][val]>> >>, l |-> << l1[val] >>, P |-> P]
NoSpin == <<"none", 0>>
ClusterLeg(m, pt, corner, spin) ==
    IF Len(corner) = 1 THEN pt[corner[1]]
    ELSE IF spin[1] # "none" THEN MassiveLeg(m, pt[corner[1]], pt[corner[2]], spin[1], spin[2])
    ELSE [r |-> <<>>, l |-> <<>>, P |-> SumP(m, pt, corner)]
Cluster(m, pt, corners, spins) == [k \in 1..Len(corners) |-> ClusterLeg(m, pt, corners[k], spins[k])]
=============================================================================
