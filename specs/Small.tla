-------------------------------- MODULE Small --------------------------------
(***************************************************************************)
(* Machine.tla over a field so small that nothing needs to be sampled.     *)
(*                                                                         *)
(* As a model: ALL points of N massless particles over F_M, with every     *)
(* assignment of every value to every representation (N = 1), and every    *)
(* repair, relabelling and parity (N > 1).  TLC explores the whole graph   *)
(* and checks the laws below on every state.                               *)
(*                                                                         *)
(* As a generator: scripts that walk through all of it, by family and      *)
(* index, to be replayed into the code.  Zero spinors, zero momenta,       *)
(* parallel, equal and opposite momenta, and particles without spinors are *)
(* all there, because everything is.                                       *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils

EnvI(name, dflt) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE dflt
M  == EnvI("SMOD", 3)
IM == EnvI("SIM", 0)
N  == EnvI("SN", 1)

F == 0..(M - 1)
AllCols == {<< <<a>>, <<b>> >> : a, b \in F}
AllRows == {<< <<a, b>> >> : a, b \in F}
AllMats == {<< <<a, b>>, <<e, d>> >> : a, b, e, d \in F}
AllVecs == {<<a, b, e, d>> : a, b, e, d \in F}
AllLegs == {SLeg(M, r, l) : r \in AllCols, l \in AllRows}
NoSp(P) == [r |-> <<>>, l |-> <<>>, P |-> P, sp |-> "none"]
\* the particles an assigned momentum may become: any split into spinors, or none where the split divides by zero
Splits(P) == {g \in AllLegs : g.P = P} \cup (IF IsUnit(M, P[2][2]) THEN {} ELSE {NoSp(P)})
                                       \cup (IF Mass2(M, P) # 0 THEN {NoSp(P)} ELSE {})
MomReps == IF IM > 0 THEN {"P", "Pb", "p", "pd"} ELSE {"P", "Pb"}
Values(rep) == CASE rep \in {"rd", "lu"} -> AllCols
                 [] rep \in {"ru", "ld"} -> AllRows
                 [] rep \in {"P", "Pb"} -> AllMats
                 [] OTHER -> AllVecs
RepRead(g, rep) == CASE rep = "p" -> FourMom(M, IM, g.P)
                     [] rep = "pd" -> LowerMu(M, FourMom(M, IM, g.P))
                     [] OTHER -> RepVal(M, IM, g, rep)

VARIABLE pt
Assign(k, rep, val) ==
    LET g == SetRep(M, IM, pt[k], rep, val)
    IN IF rep \in MomReps THEN \E s \in Splits(g.P) : pt' = [pt EXCEPT ![k] = s]
       ELSE HasSp(pt[k]) /\ pt' = [pt EXCEPT ![k] = g]
Repair(i, j, axis) == HasAllSp(pt) /\ i # j /\ FixDefined(M, pt, i, j, axis) /\ pt' = FixLegs(M, pt, i, j, axis)
Relabelled(perm, par) == pt' = ImageLegs(M, pt, perm, par)

Init == pt \in [1..N -> AllLegs]
Next == \/ N = 1 /\ \E rep \in {"rd", "ru", "ld", "lu"} \cup MomReps : \E val \in Values(rep) : Assign(1, rep, val)
        \/ N > 1 /\ \E i, j \in 1..N : \E axis \in {1, 2} : Repair(i, j, axis)
        \/ \E perm \in Perms(N) : \E par \in BOOLEAN : Relabelled(perm, par)
Spec == Init /\ [][Next]_pt

(* Laws, on every state.                                                    *)
CoherentAll == \A k \in 1..N : HasSp(pt[k]) => /\ pt[k].P = OuterP(M, pt[k].r, pt[k].l)
                                               /\ Flip(M, pt[k].P) = OuterPb(M, pt[k].r, pt[k].l)
                                               /\ Mass2(M, pt[k].P) = 0
\* whatever is assigned reads back, in every representation, and the other chirality stays
ReadBack == \A k \in 1..N : \A rep \in {"rd", "ru", "ld", "lu"} \cup MomReps : (rep \in MomReps \/ HasSp(pt[k])) =>
               \A val \in Values(rep) :
                  LET g == SetRep(M, IM, pt[k], rep, val)
                  IN /\ RepRead(g, rep) = val
                     /\ rep \in {"rd", "ru"} => g.l = pt[k].l
                     /\ rep \in {"ld", "lu"} => g.r = pt[k].r
Involutions == \A k \in 1..N : /\ Flip(M, Flip(M, pt[k].P)) = pt[k].P
                               /\ IM > 0 => Slash(M, IM, FourMom(M, IM, pt[k].P)) = pt[k].P
                               /\ HasSp(pt[k]) => /\ DownFromUp_r(M, UpFromDown_r(M, pt[k].r)) = pt[k].r
                                                  /\ DownFromUp_l(M, UpFromDown_l(M, pt[k].l)) = pt[k].l
ParityTwice == ImageLegs(M, ImageLegs(M, pt, IdPerm(N), TRUE), IdPerm(N), TRUE) = pt
RepairLaw == \A i, j \in 1..N : \A axis \in {1, 2} : (i # j /\ HasAllSp(pt) /\ FixDefined(M, pt, i, j, axis)) =>
                LET q == FixLegs(M, pt, i, j, axis)
                IN /\ MomCons(M, q) /\ OnShell(M, q)
                   /\ \A k \in 1..N : k \notin {i, j} => q[k] = pt[k]
                   /\ \A k \in {i, j} : IF axis = 1 THEN q[k].l = pt[k].l ELSE q[k].r = pt[k].r
                   /\ FixDefined(M, q, i, j, axis) /\ FixLegs(M, q, i, j, axis) = q                 \* nothing left to repair
                   /\ FixLegs(M, pt, j, i, axis) = q                                               \* the order of the pair is irrelevant
\* the repair commutes with parity and relabelling
RepairCovariant == \A i, j \in 1..N : \A axis \in {1, 2} : (i # j /\ HasAllSp(pt) /\ FixDefined(M, pt, i, j, axis)) =>
                LET q == FixLegs(M, pt, i, j, axis)
                    par(x) == ImageLegs(M, x, IdPerm(N), TRUE)
                IN FixLegs(M, par(pt), i, j, 3 - axis) = par(q)
MassIsDot == \A k \in 1..N : LDot(M, pt[k].P, pt[k].P) = Mass2(M, pt[k].P)
DotIsInvariant == \A i, j \in 1..N : LDot(M, pt[i].P, pt[j].P) = LDot(M, Transp(pt[i].P), Transp(pt[j].P))

----------------------------------------------------------------------------
(* Scripts.                                                                 *)
M2 == M * M
M4 == M2 * M2
Dg(q, k) == (q \div (CASE k = 0 -> 1 [] k = 1 -> M [] k = 2 -> M2 [] OTHER -> M2 * M)) % M
ColOf(q) == << <<Dg(q, 0)>>, <<Dg(q, 1)>> >>
RowOf(q) == << <<Dg(q, 0), Dg(q, 1)>> >>
MatOf(q) == << <<Dg(q, 0), Dg(q, 1)>>, <<Dg(q, 2), Dg(q, 3)>> >>
VecOf(q) == <<Dg(q, 0), Dg(q, 1), Dg(q, 2), Dg(q, 3)>>
DatOf(q) == <<ColOf(q), RowOf(q \div M2)>>
Mk(h, qs) == [op |-> "make", h |-> h, legs |-> [k \in 1..Len(qs) |-> DatOf(qs[k])], ms |-> <<>>]
MkMom(h, qs) == [op |-> "makep", h |-> h, shape |-> "P", vals |-> [k \in 1..Len(qs) |-> MatOf(qs[k])]]
SpOps == 4 * M2
AllOps == 4 * M2 + (IF IM > 0 THEN 4 ELSE 2) * M4
\* the o-th assignment
AssignOf(o) ==
    LET sp == o < SpOps
        w == IF sp THEN o \div M2 ELSE (o - SpOps) \div M4
        v == IF sp THEN o % M2 ELSE (o - SpOps) % M4
        rep == IF sp THEN <<"rd", "ru", "ld", "lu">>[w + 1] ELSE <<"P", "Pb", "p", "pd">>[w + 1]
    IN [op |-> "set", h |-> 1, i |-> 1, rep |-> rep,
        val |-> IF rep \in {"rd", "lu"} THEN ColOf(v) ELSE IF rep \in {"ru", "ld"} THEN RowOf(v) ELSE IF rep \in {"P", "Pb"} THEN MatOf(v) ELSE VecOf(v)]

Fam    == IOEnv["SFAM"]
From   == EnvI("SFROM", 0)             \* scripts From, From + Stride, ...
Stride == EnvI("SSTRIDE", 1)
OStride == EnvI("SOSTRIDE", 1)         \* every OStride-th operation of a script
Seqd(n) == [k \in 1..n |-> k - 1]
Keep(q, n) == LET first == q % OStride
                  cnt == IF first >= n THEN 0 ELSE 1 + (n - 1 - first) \div OStride
              IN [k \in 1..cnt |-> first + (k - 1) * OStride]
Flat2(os, A(_), B(_)) == [k \in 1..(2 * Len(os)) |-> IF k % 2 = 1 THEN A(os[(k + 1) \div 2]) ELSE B(os[k \div 2])]
Flat3(os, A(_), B(_), C(_)) == [k \in 1..(3 * Len(os)) |-> CASE k % 3 = 1 -> A(os[(k + 2) \div 3]) [] k % 3 = 2 -> B(os[(k + 1) \div 3]) [] OTHER -> C(os[k \div 3])]

\* every assignment to every particle given by spinors
ScrAssign(q) == LET A(o) == Mk(1, <<q>>)  B(o) == AssignOf(o) IN Flat2(Keep(q, AllOps), A, B)
\* every assignment of a spinor to every particle given by its momentum
ScrThen(q) == LET A(o) == MkMom(1, <<q>>)  B(o) == AssignOf(o) IN Flat2(Keep(q, SpOps), A, B)
\* equality of all pairs of momenta: groups of M2 objects against groups of M2 objects
Grp(g, k) == g * M2 + k
ScrEq(q) == LET ga == q \div M2  gb == q % M2
                os == Keep(q, M4)
                E(o) == [op |-> "eq", h |-> 1 + (o \div M2), g |-> 1 + M2 + (o % M2)]
            IN [k \in 1..(2 * M2) |-> MkMom(k, IF k <= M2 THEN <<Grp(ga, k - 1)>> ELSE <<Grp(gb, k - 1 - M2)>>)]
               \o [k \in 1..Len(os) |-> E(os[k])]
\* sums, differences and products of all pairs of momenta, scalings of all momenta
ScrArith(q) == LET ga == q \div M2  gb == q % M2
                   os == Keep(q, M4)
                   lg(h, k) == <<"leg", h, k>>
                   Ad(o) == [op |-> "arith", g |-> 3, used |-> <<1, 2>>, tree |-> <<IF (o + (o \div M2) + q) % 2 = 0 THEN "add" ELSE "sub", lg(1, 1 + (o \div M2)), lg(2, 1 + (o % M2))>>]
                   Ld(o) == [op |-> "ldot", h |-> 4, i |-> 1 + (o \div M2), j |-> 1 + M2 + (o % M2)]
                   Sc(o) == [op |-> "arith", g |-> 3, used |-> <<1>>, tree |-> CASE o % 3 = 0 -> <<"mul", lg(1, 1 + (o % M2)), (o \div M2) % M>>
                                                                              [] o % 3 = 1 -> <<"div", lg(1, 1 + (o % M2)), 1 + ((o \div M2) % (M - 1))>>
                                                                              [] OTHER -> <<"neg", lg(1, 1 + (o % M2))>>]
               IN <<MkMom(1, [k \in 1..M2 |-> Grp(ga, k - 1)]), MkMom(2, [k \in 1..M2 |-> Grp(gb, k - 1)]),
                    MkMom(4, [k \in 1..(2 * M2) |-> IF k <= M2 THEN Grp(ga, k - 1) ELSE Grp(gb, k - 1 - M2)]),
                    [op |-> "m2", h |-> 4], [op |-> "totmom", h |-> 4]>> \o Flat3(os, Ad, Ld, Sc)
\* the consistency checks of all points of two momenta
ScrCheck(q) == LET A(o) == MkMom(1, <<q, o>>)  B(o) == [op |-> "mcc", h |-> 1]  C(o) == [op |-> "osc", h |-> 1] IN Flat3(Keep(q, M4), A, B, C)
\* three particles given by spinors: repairs, images, clusterings
Three(q, o) == <<q, o % M4, (o * 7 + (o \div M4) * 11 + q * 5) % M4>>
ScrFix(q) == LET A(o) == Mk(1, Three(q, o))
                 B(o) == [op |-> "fix", h |-> 1, i |-> 1 + (o % 3), j |-> 1 + ((o + 1 + ((o \div 3) % 2)) % 3), axis |-> 1 + ((o \div 6) % 2)]
             IN Flat2(Keep(q, M4), A, B)
Perms3 == <<<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>>>
ScrImage(q) == LET A(o) == Mk(1, Three(q, o))
                   B(o) == [op |-> "image", h |-> 1, g |-> 2, perm |-> Perms3[1 + (o % 6)], par |-> (o \div 6) % 2 = 0, asrule |-> TRUE]
               IN Flat2(Keep(q, M4), A, B)
SpinChoices == << <<"none", 0>>, <<"u", 0>>, <<"d", 0>>, <<"u", 1>>, <<"u", 2>>, <<"d", 1>>, <<"d", 2>> >>
ScrCluster(q) == LET A(o) == Mk(1, Three(q, o))
                     B(o) == [op |-> "cluster", h |-> 1, g |-> 2,
                              corners |-> <<<<<<1, 2>>, <<3>>>>, <<<<3>>, <<2, 1>>>>, <<<<1>>, <<3, 2>>>>, <<<<3, 1>>, <<2>>>>>>[1 + ((o \div 7) % 4)],
                              spins |-> LET s == SpinChoices[1 + (o % 7)] IN <<<<s, NoSpin>>, <<NoSpin, s>>, <<NoSpin, s>>, <<s, NoSpin>>>>[1 + ((o \div 7) % 4)]]
                 IN Flat2(Keep(q, M4), A, B)
Script(q) == CASE Fam = "assign" -> ScrAssign(q)
               [] Fam = "then" -> ScrThen(q)
               [] Fam = "eq" -> ScrEq(q)
               [] Fam = "arith" -> ScrArith(q)
               [] Fam = "check" -> ScrCheck(q)
               [] Fam = "fix" -> ScrFix(q)
               [] Fam = "image" -> ScrImage(q)
               [] Fam = "cluster" -> ScrCluster(q)
Scripts == LET cnt == 1 + (M4 - 1 - From) \div Stride
           IN [k \in 1..cnt |-> Script(From + (k - 1) * Stride)]

\* the generator as a trivial behaviour: one step that writes the scripts
GInit == pt = <<>>
GNext == pt = <<>> /\ JsonSerialize(IOEnv["SOUT"], Scripts) /\ pt' = <<1>>
GSpec == GInit /\ [][GNext]_pt
=============================================================================
