-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Abstract syntax and meaning of spinor-helicity expressions.             *)
(*                                                                         *)
(* An expression is a tuple whose first component names the constructor.   *)
(* Its value at a point is a matrix (sequence of rows); scalars are 1 x 1. *)
(* Undef marks expressions without a value (bad brackets, bad division).   *)
(*                                                                         *)
(*   <<"ang", i, j>>  <i|j>          <<"sqr", i, j>>   [i|j]                *)
(*   <<"ru", i>> <i|   <<"rd", i>> |i>   <<"ld", i>> [i|   <<"lu", i>> |i]  *)
(*   <<"chain", s, i, mids, e, j>>   s, e in {"A", "S", "O"} (angle, square,*)
(*        open), mids a sequence of signed sums <<sign, leg>>               *)
(*   <<"spin", s, i, mids, e, j, a, b>>  a chain or bracket whose ends are  *)
(*        definite spin states of the massive pairs (i, i+1) and (j, j+1)   *)
(*        when a (resp. b) holds, and plain massless spinors otherwise      *)
(*   <<"s", legs>>  <<"m", i>>  <<"tr", mids>>  <<"tr5", mids>>             *)
(*   <<"D", corners>>  <<"D3", ijk>>  <<"Om", ijk>>  <<"Pi", ijk>> <<"d5">> *)
(*   <<"mass", name>> <<"num", n>> <<"frac", a, b>>                         *)
(*   <<"add"|"sub"|"mul"|"div"|"mat", x, y>> <<"neg", x>> <<"pow", x, n>>    *)
(***************************************************************************)
EXTENDS Spinors

Undef == <<>>
Scal(x) == << <<x>> >>
IsScal(v) == v # Undef /\ Len(v) = 1 /\ Len(v[1]) = 1

\* signed sum of slashed momenta
RECURSIVE SgnSum(_, _, _)
SgnSum(m, pt, t) == IF t = <<>> THEN Zero22
                    ELSE LET r == SgnSum(m, pt, Tail(t))
                         IN IF Head(t)[1] >= 0 THEN MAdd(m, pt[Head(t)[2]].P, r) ELSE MSub(m, r, pt[Head(t)[2]].P)

\* product of alternating slashed matrices; bar tells whether the first one is Pbar
RECURSIVE SlashProd(_, _, _, _)
SlashProd(m, pt, mids, bar) ==
    LET P == SgnSum(m, pt, Head(mids))
        X == IF bar THEN Flip(m, P) ELSE P
    IN IF Len(mids) = 1 THEN X ELSE MatMul(m, X, SlashProd(m, pt, Tail(mids), ~bar))

ChainOK(s, n, e) == CASE s = "O" \/ e = "O" -> TRUE
                      [] s = "A" -> IF n % 2 = 0 THEN e = "A" ELSE e = "S"
                      [] s = "S" -> IF n % 2 = 0 THEN e = "S" ELSE e = "A"
FirstBar(s, n, e) == CASE s = "A" -> TRUE
                       [] s = "S" -> FALSE
                       [] s = "O" /\ e = "O" -> TRUE
                       [] s = "O" /\ e = "A" -> n % 2 = 0
                       [] s = "O" /\ e = "S" -> n % 2 = 1
ChainVal(m, pt, s, i, mids, e, j) ==
    LET mid == SlashProd(m, pt, mids, FirstBar(s, Len(mids), e))
        lhs == CASE s = "A" -> MatMul(m, RU(m, pt[i]), mid)
                 [] s = "S" -> MatMul(m, pt[i].l, mid)
                 [] s = "O" -> mid
    IN CASE e = "A" -> MatMul(m, lhs, pt[j].r)
         [] e = "S" -> MatMul(m, lhs, LU(m, pt[j]))
         [] e = "O" -> lhs

\* the definite spin state written i_ (angle) or i^ (square) of the massive pair (i, i+1)
SpinEnd(m, pt, br, i) == MassiveLeg(m, pt[i], pt[i + 1], IF br = "A" THEN "d" ELSE "u", 1)
SpinVal(m, pt, s, i, mids, e, j, a, b) ==
    LET n == Len(pt)
        ext == pt \o <<IF a THEN SpinEnd(m, pt, s, i) ELSE pt[i]>> \o <<IF b THEN SpinEnd(m, pt, e, j) ELSE pt[j]>>
    IN IF mids # <<>> THEN ChainVal(m, ext, s, n + 1, mids, e, n + 2)
       ELSE IF s = "A" THEN MatMul(m, RU(m, ext[n + 1]), ext[n + 2].r) ELSE MatMul(m, ext[n + 1].l, LU(m, ext[n + 2]))

Mand(m, pt, legs) == Det2(m, SumP(m, pt, legs))

\* the three cyclic runs of legs started by i, j, k
RECURSIVE RunFrom(_, _, _)
RunFrom(n, stop, last) == LET nx == 1 + (last % n) IN IF nx \in stop THEN <<>> ELSE <<nx>> \o RunFrom(n, stop, nx)
NOL(n, ijk) == [t \in 1..3 |-> <<ijk[t]>> \o RunFrom(n, {ijk[1], ijk[2], ijk[3]}, ijk[t])]

OmegaVal(m, pt, ijk) ==
    LET nol == NOL(Len(pt), ijk)
        s2 == Mand(m, pt, nol[3])
        s1 == Mand(m, pt, nol[2])
        s0 == Mand(m, pt, nol[1])
        s20 == Mand(m, pt, nol[3] \o <<nol[1][1]>>)
    IN Sub(m, Mul(m, 2, Mul(m, s2, s1)), Mul(m, Sub(m, Add(m, s2, s1), s0), s20))
PiVal(m, pt, ijk) ==
    LET nol == NOL(Len(pt), ijk)
    IN Sub(m, Mand(m, pt, nol[3] \o <<nol[1][1]>>), Mand(m, pt, nol[3] \o <<nol[1][2]>>))
GramVal(m, pt, corners) ==
    LET n == Len(corners)
        Q == [k \in 1..n |-> SumP(m, pt, corners[k])]
        G == [a \in 1..(n - 1) |-> [b \in 1..(n - 1) |-> LDot(m, Q[a], Q[b])]]
        d == DetN(m, G)
    IN IF n % 2 = 0 THEN d ELSE Neg(m, d)
Gram3Val(m, pt, ijk) ==
    LET nol == NOL(Len(pt), ijk)
        P1 == SumP(m, pt, nol[1])
        P2 == SumP(m, pt, nol[2])
        x == LDot(m, P1, P2)
    IN Sub(m, Mul(m, x, x), Mul(m, Det2(m, P1), Det2(m, P2)))
\* tr(gamma5 a b c d) in terms of two-component traces
Tr5Val(m, pt, t) == Sub(m, Trace2(m, SlashProd(m, pt, t, TRUE)), Trace2(m, SlashProd(m, pt, t, FALSE)))
TrVal(m, pt, t) == Trace2(m, SlashProd(m, pt, t, TRUE))
D5Val(m, pt) ==
    LET s(i, j) == Mand(m, pt, <<i, j>>)
        a == Mul(m, s(1, 2), s(2, 3))
        b == Mul(m, s(2, 3), s(3, 4))
        c == Mul(m, s(3, 4), s(4, 5))
        d == Mul(m, s(4, 5), s(5, 1))
        f == Mul(m, s(5, 1), s(1, 2))
        q == Sub(m, Add(m, Sub(m, Add(m, a, b), c), d), f)
        w == Mul(m, 4, Mul(m, Mul(m, a, s(3, 4)), Sub(m, Sub(m, s(2, 3), s(4, 5)), s(5, 1))))
    IN Sub(m, Mul(m, q, q), w)

\* env is a record [pt, ms] : ms maps mass names to <<"v", value>> or <<"e", expression>>
RECURSIVE Ev(_, _, _)
Ev(m, env, e) ==
    LET pt == env.pt
        k  == e[1]
    IN CASE k = "ang"   -> MatMul(m, RU(m, pt[e[2]]), pt[e[3]].r)
         [] k = "sqr"   -> MatMul(m, pt[e[2]].l, LU(m, pt[e[3]]))
         [] k = "chain" -> IF ~ChainOK(e[2], Len(e[4]), e[5]) THEN Undef
                           ELSE ChainVal(m, pt, e[2], e[3], e[4], e[5], e[6])
         [] k = "spin"  -> IF ~ChainOK(e[2], Len(e[4]), e[5]) THEN Undef
                           ELSE SpinVal(m, pt, e[2], e[3], e[4], e[5], e[6], e[7], e[8])
         [] k = "s"     -> Scal(Mand(m, pt, e[2]))
         [] k = "num"   -> Scal(Red(m, e[2]))
         [] k = "frac"  -> IF IsUnit(m, e[3]) THEN Scal(Quo(m, e[2], e[3])) ELSE Undef
         [] k = "add"   -> LET x == Ev(m, env, e[2])  y == Ev(m, env, e[3])
                           IN IF x = Undef \/ y = Undef THEN Undef
                              ELSE IF ~SameShape(x, y) THEN Undef ELSE MAdd(m, x, y)
         [] k = "sub"   -> LET x == Ev(m, env, e[2])  y == Ev(m, env, e[3])
                           IN IF x = Undef \/ y = Undef THEN Undef
                              ELSE IF ~SameShape(x, y) THEN Undef ELSE MSub(m, x, y)
         [] k = "neg"   -> LET x == Ev(m, env, e[2]) IN IF x = Undef THEN Undef ELSE MScale(m, m - 1, x)
         [] k = "mul"   -> LET x == Ev(m, env, e[2])  y == Ev(m, env, e[3])
                           IN IF x = Undef \/ y = Undef THEN Undef
                              ELSE IF IsScal(x) THEN MScale(m, x[1][1], y)
                              ELSE IF IsScal(y) THEN MScale(m, y[1][1], x)
                              ELSE IF Len(x[1]) = 1 /\ Len(y) = 1 THEN MatMul(m, x, y)   \* outer product |i><j|
                              ELSE Undef
         [] k = "mat"   -> LET x == Ev(m, env, e[2])  y == Ev(m, env, e[3])
                           IN IF x = Undef \/ y = Undef THEN Undef
                              ELSE IF MCompat(x, y) THEN MatMul(m, x, y) ELSE Undef
         [] k = "div"   -> LET x == Ev(m, env, e[2])  y == Ev(m, env, e[3])
                           IN IF x = Undef \/ ~IsScal(y) THEN Undef
                              ELSE IF ~IsUnit(m, y[1][1]) THEN Undef ELSE MScale(m, Inv(m, y[1][1]), x)
         [] k = "pow"   -> LET x == Ev(m, env, e[2])
                           IN IF ~IsScal(x) THEN Undef
                              ELSE IF e[3] >= 0 THEN Scal(PowM(m, x[1][1], e[3]))
                              ELSE IF IsUnit(m, x[1][1]) THEN Scal(PowM(m, Inv(m, x[1][1]), 0 - e[3])) ELSE Undef
         [] k = "ru"    -> RU(m, pt[e[2]])
         [] k = "rd"    -> pt[e[2]].r
         [] k = "ld"    -> pt[e[2]].l
         [] k = "lu"    -> LU(m, pt[e[2]])
         [] k = "m"     -> Scal(Det2(m, pt[e[2]].P))
         [] k = "tr"    -> Scal(TrVal(m, pt, e[2]))
         [] k = "tr5"   -> Scal(Tr5Val(m, pt, e[2]))
         [] k = "D"     -> Scal(GramVal(m, pt, e[2]))
         [] k = "D3"    -> Scal(Gram3Val(m, pt, e[2]))
         [] k = "Om"    -> Scal(OmegaVal(m, pt, e[2]))
         [] k = "Pi"    -> Scal(PiVal(m, pt, e[2]))
         [] k = "d5"    -> Scal(D5Val(m, pt))
         [] k = "mass"  -> LET x == env.ms[e[2]] IN IF x[1] = "v" THEN Scal(Red(m, x[2])) ELSE Ev(m, env, x[2])

NoMass == [x \in {} |-> 0]
EvPt(m, pt, e) == Ev(m, [pt |-> pt, ms |-> NoMass], e)

----------------------------------------------------------------------------
(* Relabelling of expressions by a symmetry (used by C07 / C17).            *)
SwapAS(s) == CASE s = "A" -> "S" [] s = "S" -> "A" [] s = "O" -> "O"
RelT(s, t) == [k \in 1..Len(t) |-> <<t[k][1], s[t[k][2]]>>]
RelTs(s, ts) == [k \in 1..Len(ts) |-> RelT(s, ts[k])]
RelL(s, t) == [k \in 1..Len(t) |-> s[t[k]]]
Rev(t) == [k \in 1..Len(t) |-> t[Len(t) + 1 - k]]
RECURSIVE Relabel(_, _)
Relabel(g, e) ==
    LET s == g[1]  par == g[2]  k == e[1]
    IN CASE k = "ang" -> IF par THEN <<"sqr", s[e[3]], s[e[2]]>> ELSE <<"ang", s[e[2]], s[e[3]]>>
         [] k = "sqr" -> IF par THEN <<"ang", s[e[3]], s[e[2]]>> ELSE <<"sqr", s[e[2]], s[e[3]]>>
         [] k = "s" -> <<"s", RelL(s, e[2])>>
         [] k = "m" -> <<"m", s[e[2]]>>
         [] k = "D" -> <<"D", [i \in 1..Len(e[2]) |-> RelL(s, e[2][i])]>>
         [] k \in {"add", "sub", "mul", "div", "mat"} -> <<k, Relabel(g, e[2]), Relabel(g, e[3])>>
         [] k = "neg" -> <<k, Relabel(g, e[2])>>
         [] k = "pow" -> <<k, Relabel(g, e[2]), e[3]>>
         [] k \in {"num", "frac", "mass"} -> e
         [] k = "chain" -> IF ~par THEN <<"chain", e[2], s[e[3]], RelTs(s, e[4]), e[5], s[e[6]]>>
                           ELSE LET c == <<"chain", SwapAS(e[2]), s[e[3]], RelTs(s, e[4]), SwapAS(e[5]), s[e[6]]>>
                                IN IF Len(e[4]) % 2 = 0 THEN <<"neg", c>> ELSE c
         [] k = "tr5" -> IF ~par THEN <<"tr5", RelTs(s, e[2])>> ELSE <<"neg", <<"tr5", RelTs(s, e[2])>> >>
         [] k = "tr" -> IF ~par THEN <<"tr", RelTs(s, e[2])>>
                        ELSE <<"tr", <<RelT(s, e[2][1])>> \o Rev(RelTs(s, Tail(e[2])))>>
=============================================================================
