------------------------------- MODULE ExprGen ------------------------------
(***************************************************************************)
(* Seeded generation of abstract expressions of every family.              *)
(***************************************************************************)
EXTENDS Render

\* distinct labels: a pseudo-random arrangement of 1..n
RECURSIVE Shuffle(_, _, _)
Shuffle(sd, path, s) ==
    IF Len(s) <= 1 THEN s
    ELSE LET k == 1 + Rnd(sd, path \o <<Len(s)>>, Len(s))
         IN <<s[k]>> \o Shuffle(sd, path, SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s)))
RndLabs(sd, path, n, c) == SubSeq(Shuffle(sd, path, Upto(n)), 1, c)
RndLab(sd, path, n) == 1 + Rnd(sd, path, n)
RECURSIVE SortSeqInt(_)
SortSeqInt(s) == IF s = <<>> THEN <<>>
                 ELSE LET mn == CHOOSE x \in {s[k] : k \in 1..Len(s)} : \A j \in 1..Len(s) : x <= s[j]
                      IN <<mn>> \o SortSeqInt(SelectSeq(s, LAMBDA x : x # mn))
RndSum(sd, path, n, mx, signed) ==
    LET c == 1 + Rnd(sd, path \o <<1>>, mx)
        L == RndLabs(sd, path \o <<2>>, n, IF c > n THEN n ELSE c)
    IN [k \in 1..Len(L) |-> <<IF signed /\ k > 1 /\ Rnd(sd, path \o <<3, k>>, 4) = 0 THEN 0 - 1 ELSE 1, L[k]>>]
RndMids(sd, path, n, c, mx, signed) == [k \in 1..c |-> RndSum(sd, path \o <<k>>, n, mx, signed)]

ClosedEnd(s, c) == IF c % 2 = 0 THEN s ELSE IF s = "A" THEN "S" ELSE "A"
SwapE(x) == IF x = "A" THEN "S" ELSE "A"
RndChain(sd, path, n) ==
    LET c == 1 + Rnd(sd, path \o <<1>>, 4)
        s == Pick(sd, path \o <<2>>, <<"A", "S">>)
    IN <<"chain", s, RndLab(sd, path \o <<3>>, n), RndMids(sd, path \o <<4>>, n, c, 3, TRUE), ClosedEnd(s, c), RndLab(sd, path \o <<5>>, n)>>
RndBadChain(sd, path, n) == LET e == RndChain(sd, path, n) IN [e EXCEPT ![5] = SwapE(e[5])]
RndSpin(sd, path, n) ==
    LET c == Rnd(sd, path \o <<1>>, 5)
        s == Pick(sd, path \o <<2>>, <<"A", "S">>)
        a == Rnd(sd, path \o <<6>>, 4) # 0
    IN <<"spin", s, RndLab(sd, path \o <<3>>, n - 1), RndMids(sd, path \o <<4>>, n, c, 3, TRUE), ClosedEnd(s, c), RndLab(sd, path \o <<5>>, n - 1),
         a, ~a \/ Rnd(sd, path \o <<7>>, 3) # 0>>
RndTwo(sd, path, n) ==
    LET L == RndLabs(sd, path \o <<1>>, n, 2) IN <<Pick(sd, path \o <<2>>, <<"ang", "sqr">>), L[1], L[2]>>
RndMand(sd, path, n) == <<"s", RndLabs(sd, path \o <<1>>, n, 1 + Rnd(sd, path \o <<2>>, IF n > 4 THEN 4 ELSE n - 1))>>
RndTr(sd, path, n) == <<"tr", RndMids(sd, path \o <<1>>, n, Pick(sd, path \o <<2>>, <<2, 4, 4, 6>>), 2, TRUE)>>
\* tr5 of four single legs, or of four signed sums
RndTr5(sd, path, n, sgl) ==
    LET q == RndMids(sd, path \o <<1>>, n, 4, 2, TRUE)
        k == 1 + Rnd(sd, path \o <<2>>, 4)
        lone == <<1, Pick(sd, path \o <<3>>, sgl)>>
    IN IF Rnd(sd, path \o <<4>>, 2) = 0
       THEN LET L == RndLabs(sd, path \o <<5>>, Len(sgl), 4)
            IN <<"tr5", [j \in 1..4 |-> <<<<1, sgl[L[j]]>>>>]>>
       ELSE <<"tr5", IF Rnd(sd, path \o <<6>>, 3) = 0 THEN q ELSE [q EXCEPT ![k] = <<lone>>]>>
\* cut a shuffled label list into c corners
RndCorners(sd, path, n, c) ==
    LET L == Shuffle(sd, path \o <<1>>, Upto(n))
        szs == [k \in 1..(c - 1) |-> 1 + Rnd(sd, path \o <<2, k>>, 2)]
        RECURSIVE go(_, _)
        go(k, off) == IF k = c THEN <<SubSeq(L, off + 1, n)>>
                      ELSE LET hi == IF off + szs[k] > n - (c - k) THEN n - (c - k) ELSE off + szs[k]
                           IN <<SubSeq(L, off + 1, hi)>> \o go(k + 1, hi)
    IN go(1, 0)
RndGram(sd, path, n) == <<"D", RndCorners(sd, path \o <<1>>, n, Pick(sd, path \o <<2>>, IF n >= 5 THEN <<2, 3, 3, 4, 4>> ELSE <<2, 3, 3>>))>>
RndIJK(sd, path, n) == RndLabs(sd, path, n, 3)
RndPi(sd, path, n) ==
    LET t == RndIJK(sd, path \o <<1>>, n)
        nol == NOL(n, t)
    IN IF Len(nol[1]) >= 2 THEN <<"Pi", t>> ELSE <<"Om", t>>
RndOpen(sd, path, n) ==
    LET k == Rnd(sd, path \o <<1>>, 7)
        i == RndLab(sd, path \o <<2>>, n)
        mids == RndMids(sd, path \o <<3>>, n, 1 + Rnd(sd, path \o <<4>>, 3), 2, TRUE)
    IN CASE k = 0 -> <<"ru", i>> [] k = 1 -> <<"rd", i>> [] k = 2 -> <<"ld", i>> [] k = 3 -> <<"lu", i>>
         [] k = 4 -> <<"chain", Pick(sd, path \o <<5>>, <<"A", "S">>), i, mids, "O", 0>>
         [] k = 5 -> <<"chain", "O", 0, mids, Pick(sd, path \o <<5>>, <<"A", "S">>), i>>
         [] k = 6 -> <<"chain", "O", 0, mids, "O", 0>>

AtomFams == <<"two", "two", "chain", "chain", "chain", "bad", "s", "s", "m", "tr", "tr5", "tr5", "D", "D3", "Om", "Pi", "open", "open", "d5">>
RndAtom(sd, path, n, sgl) ==
    LET f == Pick(sd, path \o <<99>>, AtomFams)
    IN CASE f = "two" -> RndTwo(sd, path, n)
         [] f = "chain" -> RndChain(sd, path, n)
         [] f = "bad" -> RndBadChain(sd, path, n)
         [] f = "s" -> RndMand(sd, path, n)
         [] f = "m" -> <<"m", RndLab(sd, path, n)>>
         [] f = "tr" -> RndTr(sd, path, n)
         [] f = "tr5" -> IF n >= 4 THEN RndTr5(sd, path, n, Upto(n)) ELSE RndTr(sd, path, n)
         [] f = "D" -> RndGram(sd, path, n)
         [] f = "D3" -> <<"D3", RndIJK(sd, path, n)>>
         [] f = "Om" -> <<"Om", RndIJK(sd, path, n)>>
         [] f = "Pi" -> RndPi(sd, path, n)
         [] f = "open" -> RndOpen(sd, path, n)
         [] f = "d5" -> IF n >= 5 THEN <<"d5">> ELSE RndTwo(sd, path, n)

----------------------------------------------------------------------------
(* Legs of a clustered point that keep spinors / are massless.               *)
ChainLegsOK(e, sgl) ==
    LET S == {sgl[k] : k \in 1..Len(sgl)}
    IN CASE e[1] \in {"ang", "sqr"} -> e[2] \in S /\ e[3] \in S
         [] e[1] \in {"ru", "rd", "ld", "lu"} -> e[2] \in S
         [] e[1] = "chain" -> (e[2] # "O" => e[3] \in S) /\ (e[5] # "O" => e[6] \in S)
         [] OTHER -> TRUE
RECURSIVE AtomFor(_, _, _, _, _)
AtomFor(sd, path, n, sgl, tries) ==
    LET e == RndAtom(sd, path \o <<tries>>, n, sgl)
    IN IF ChainLegsOK(e, sgl) \/ tries > 40 THEN (IF ChainLegsOK(e, sgl) THEN e ELSE <<"s", <<1>>>>) ELSE AtomFor(sd, path, n, sgl, tries + 1)

----------------------------------------------------------------------------
(* Composite scalar expressions.                                            *)
MassNames == <<"mt", "m_h", "M_W", "MUg">>        \* MUg is printed as the Greek letter
ScalFams == <<"two", "two", "two", "chain", "chain", "s", "s", "tr", "tr5", "D", "Om", "Pi", "m", "mass">>
RndScal(sd, path, n, masses) ==
    LET f == Pick(sd, path \o <<99>>, ScalFams)
    IN CASE f = "two" -> RndTwo(sd, path, n)
         [] f = "chain" -> RndChain(sd, path, n)
         [] f = "s" -> RndMand(sd, path, n)
         [] f = "tr" -> RndTr(sd, path, n)
         [] f = "tr5" -> RndTr5(sd, path, n, Upto(n))
         [] f = "D" -> RndGram(sd, path, n)
         [] f = "Om" -> <<"Om", RndIJK(sd, path, n)>>
         [] f = "Pi" -> RndPi(sd, path, n)
         [] f = "m" -> <<"m", RndLab(sd, path, n)>>
         [] f = "mass" -> IF masses = <<>> THEN RndTwo(sd, path, n) ELSE <<"mass", Pick(sd, path \o <<5>>, masses)>>
RndNum(sd, path) == IF Rnd(sd, path \o <<1>>, 3) = 0
                    THEN <<"frac", 1 + Rnd(sd, path \o <<2>>, 12), 2 + Rnd(sd, path \o <<3>>, 12)>>
                    ELSE <<"num", 1 + Rnd(sd, path \o <<2>>, 19)>>
RECURSIVE RndExp(_, _, _, _, _)
RndExp(sd, path, n, masses, depth) ==
    IF depth = 0 THEN IF Rnd(sd, path \o <<50>>, 5) = 0 THEN RndNum(sd, path \o <<51>>) ELSE RndScal(sd, path \o <<52>>, n, masses)
    ELSE LET k == Rnd(sd, path \o <<53>>, 16)
             x == RndExp(sd, path \o <<1>>, n, masses, depth - 1)
             y == RndExp(sd, path \o <<2>>, n, masses, depth - 1)
         IN CASE k \in 0..3 -> <<"add", x, y>>
              [] k \in 4..5 -> <<"sub", x, y>>
              [] k \in 6..10 -> <<"mul", x, y>>
              [] k \in 11..12 -> <<"div", x, y>>
              [] k = 13 -> <<"neg", x>>
              [] k = 14 -> <<"pow", x, 2 + Rnd(sd, path \o <<3>>, 3)>>
              [] k = 15 -> <<"pow", RndScal(sd, path \o <<4>>, n, masses), Pick(sd, path \o <<5>>, <<2, 3, 0 - 1, 0 - 2, 11>>)>>

(* Expressions with chains between definite spin states of massive pairs.      *)
RECURSIVE RndSpinExp(_, _, _, _)
RndSpinExp(sd, path, n, depth) ==
    IF depth = 0 THEN IF Rnd(sd, path \o <<50>>, 4) = 0 THEN RndScal(sd, path \o <<52>>, n, <<>>) ELSE RndSpin(sd, path \o <<51>>, n)
    ELSE LET k == Rnd(sd, path \o <<53>>, 9)
             x == RndSpinExp(sd, path \o <<1>>, n, depth - 1)
             y == RndSpinExp(sd, path \o <<2>>, n, depth - 1)
         IN CASE k \in 0..1 -> <<"add", x, y>> [] k = 2 -> <<"sub", x, y>> [] k \in 3..4 -> <<"mul", x, y>> [] k = 5 -> <<"div", x, y>>
              [] k = 6 -> <<"neg", x>> [] k = 7 -> <<"pow", x, 2>> [] k = 8 -> <<"mul", RndNum(sd, path \o <<3>>), x>>

(* Expressions with open spinor indices.                                     *)
ColA(sd, path, n) == IF Rnd(sd, path \o <<1>>, 2) = 0 THEN <<"rd", RndLab(sd, path \o <<2>>, n)>>
                     ELSE <<"chain", "O", 0, RndMids(sd, path \o <<3>>, n, 2, 2, TRUE), "A", RndLab(sd, path \o <<2>>, n)>>
RowA(sd, path, n) == IF Rnd(sd, path \o <<1>>, 2) = 0 THEN <<"ru", RndLab(sd, path \o <<2>>, n)>>
                     ELSE <<"chain", "A", RndLab(sd, path \o <<2>>, n), RndMids(sd, path \o <<3>>, n, 2, 2, TRUE), "O", 0>>
ColS(sd, path, n) == IF Rnd(sd, path \o <<1>>, 2) = 0 THEN <<"lu", RndLab(sd, path \o <<2>>, n)>>
                     ELSE <<"chain", "O", 0, RndMids(sd, path \o <<3>>, n, 2, 2, TRUE), "S", RndLab(sd, path \o <<2>>, n)>>
RowS(sd, path, n) == IF Rnd(sd, path \o <<1>>, 2) = 0 THEN <<"ld", RndLab(sd, path \o <<2>>, n)>>
                     ELSE <<"chain", "S", RndLab(sd, path \o <<2>>, n), RndMids(sd, path \o <<3>>, n, 2, 2, TRUE), "O", 0>>
RndVec(sd, path, n, k) == CASE k = 0 -> ColA(sd, path, n) [] k = 1 -> RowA(sd, path, n) [] k = 2 -> ColS(sd, path, n) [] k = 3 -> RowS(sd, path, n)
RndOuter(sd, path, n, k) ==
    LET c == IF k \in {0, 1} THEN ColA(sd, path \o <<1>>, n) ELSE ColS(sd, path \o <<1>>, n)
        r == IF k \in {0, 2} THEN RowA(sd, path \o <<2>>, n) ELSE RowS(sd, path \o <<2>>, n)
    IN <<"mul", c, r>>
RndOpenExp(sd, path, n, masses) ==
    LET f == Rnd(sd, path \o <<9>>, 5)
        k == Rnd(sd, path \o <<8>>, 4)
        sc == RndScal(sd, path \o <<3>>, n, masses)
    IN CASE f = 0 -> <<Pick(sd, path \o <<7>>, <<"add", "sub">>), RndVec(sd, path \o <<1>>, n, k), RndVec(sd, path \o <<2>>, n, k)>>
         [] f = 1 -> <<"mul", sc, RndVec(sd, path \o <<1>>, n, k)>>
         [] f = 2 -> RndOuter(sd, path \o <<1>>, n, k)
         [] f = 3 -> <<Pick(sd, path \o <<7>>, <<"add", "sub">>), RndOuter(sd, path \o <<1>>, n, k), RndOuter(sd, path \o <<2>>, n, k)>>
         [] f = 4 -> <<"div", RndVec(sd, path \o <<1>>, n, k), sc>>

=============================================================================
