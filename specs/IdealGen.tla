------------------------------ MODULE IdealGen ------------------------------
(***************************************************************************)
(* Ideals of spinor expressions and questions about them: the defining     *)
(* expressions, expressions that must be members (combinations of the      *)
(* defining ones, consequences of momentum conservation and of Schouten    *)
(* identities), arbitrary expressions, and a symmetry.                     *)
(***************************************************************************)
EXTENDS ExprGen, Json, IOUtils

EnvInt(name, dflt) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE dflt
Seed  == EnvInt("GSEED", 1)
Count == EnvInt("GCOUNT", 50)
Out   == IOEnv["GOUT"]
SubSeed(k) == (Seed * 7919 + k * 104729) % 60013

Plus(L) == [j \in 1..Len(L) |-> <<1, L[j]>>]
Chain1(sd, path, n) ==
    LET s == Pick(sd, path \o <<1>>, <<"A", "S">>)
        L == RndLabs(sd, path \o <<2>>, n, 4)
    IN <<"chain", s, L[1], <<Plus(SubSeq(L, 2, 3))>>, ClosedEnd(s, 1), IF Rnd(sd, path \o <<3>>, 3) = 0 THEN L[1] ELSE L[4]>>
Gen0(sd, path, n) ==
    LET k == Rnd(sd, path \o <<1>>, 10)
    IN CASE k \in 0..5 -> LET L == RndLabs(sd, path \o <<2>>, n, 2) IN <<Pick(sd, path \o <<3>>, <<"ang", "sqr">>), L[1], L[2]>>
         [] k = 6 -> <<"s", RndLabs(sd, path \o <<4>>, n, 2)>>
         [] k = 7 -> IF n >= 6 THEN <<"s", RndLabs(sd, path \o <<4>>, n, 3)>> ELSE <<"s", RndLabs(sd, path \o <<4>>, n, 2)>>
         [] k \in 8..9 -> Chain1(sd, path \o <<5>>, n)
Poly(sd, path, n) ==
    LET k == Rnd(sd, path \o <<1>>, 4)
    IN CASE k \in 0..1 -> Gen0(sd, path \o <<2>>, n)
         [] k = 2 -> <<"mul", Gen0(sd, path \o <<3>>, n), Gen0(sd, path \o <<4>>, n)>>
         [] k = 3 -> <<Pick(sd, path \o <<5>>, <<"add", "sub">>), <<"mul", Gen0(sd, path \o <<6>>, n), Gen0(sd, path \o <<7>>, n)>>, Gen0(sd, path \o <<8>>, n)>>
\* identities of phase space
All(n) == Plus(Upto(n))
Forced(sd, path, n) ==
    LET k == Rnd(sd, path \o <<1>>, 4)
        L == RndLabs(sd, path \o <<2>>, n, 4)
        A(i, j) == <<"ang", L[i], L[j]>>
        rest == SelectSeq(Upto(n), LAMBDA x : x # L[1] /\ x # L[2])
    IN CASE k = 0 -> <<"chain", "A", L[1], <<All(n)>>, "S", L[2]>>
         [] k = 1 -> <<"sub", <<"s", <<L[1], L[2]>>>>, <<"s", rest>>>>
         [] k = 2 -> <<"add", <<"add", <<"mul", A(1, 2), A(3, 4)>>, <<"mul", A(1, 3), A(4, 2)>>>>, <<"mul", A(1, 4), A(2, 3)>>>>
         [] k = 3 -> <<"add", <<"s", <<L[1], L[2]>>>>, <<"chain", "S", L[1], <<Plus(SelectSeq(Upto(n), LAMBDA x : x # L[2]))>>, "A", L[1]>>>>
Member(sd, path, n, defs) ==
    LET d(k) == Pick(sd, path \o <<1, k>>, defs)
        c(k) == Gen0(sd, path \o <<2, k>>, n)
        q == Rnd(sd, path \o <<3>>, 4)
    IN CASE q = 0 -> d(1) [] q = 1 -> <<"mul", d(1), c(1)>> [] q = 2 -> <<"add", <<"mul", d(1), c(1)>>, <<"mul", c(2), d(2)>>>>
         [] q = 3 -> <<"add", <<"mul", c(1), d(1)>>, Forced(sd, path \o <<4>>, n)>>

IsBr(e) == e[1] \in {"ang", "sqr"}
Case(k) ==
    LET sd == SubSeed(k)
        n == Pick(sd, <<1>>, <<4, 5, 5, 5, 6>>)
        c == Pick(sd, <<2>>, <<1, 1, 2, 2, 3>>)
        cls == n <= 5 /\ Rnd(sd, <<3>>, 5) < 2
        br(j) == LET L == RndLabs(sd, <<4, j>>, n, 2) IN <<Pick(sd, <<5, j>>, <<"ang", "sqr">>), L[1], L[2]>>
        defs == [j \in 1..c |-> IF cls THEN br(j) ELSE Gen0(sd, <<6, j>>, n)]
        g == <<Shuffle(sd, <<7>>, Upto(n)), Rnd(sd, <<8>>, 2) = 0>>
        Q(role, e) == [role |-> role, ast |-> e, toks |-> Toks(PlainStyle, e)]
        qs == [j \in 1..3 |-> Q("in", Member(sd, <<9, j>>, n, defs))] \o [j \in 1..2 |-> Q("in", Forced(sd, <<10, j>>, n))]
              \o [j \in 1..6 |-> Q("ask", Poly(sd, <<11, j>>, n))]
        rel == [j \in 1..c |-> Relabel(g, defs[j])]
    IN [id |-> k, n |-> n, seed |-> SubSeed(k), kind |-> IF n > 5 \/ cls THEN "lips" ELSE Pick(sd, <<12>>, <<"lips", "spin", "spin">>),
        defs |-> defs, dtoks |-> [j \in 1..c |-> Toks(PlainStyle, defs[j])], rel |-> [j \in 1..c |-> Toks(PlainStyle, rel[j])], relasts |-> rel,
        perm |-> g[1], par |-> g[2], qs |-> qs, classes |-> cls /\ (n = 4 \/ Rnd(sd, <<13>>, 3) = 0), slice |-> Rnd(sd, <<14>>, 2) = 0]

----------------------------------------------------------------------------
(* Ideals of spinor components (coordinate subspaces, no momentum            *)
(* conservation): membership of any expression, open indices included, is    *)
(* decided by its values on generic points of the subspace.                  *)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
CoordNames == <<"a", "b", "c", "d">>
OpenQ(sd, path, n) ==
    LET f == Rnd(sd, path \o <<9>>, 8)
        q == Rnd(sd, path \o <<8>>, 4)
        i == RndLab(sd, path \o <<7>>, n)
    IN CASE f \in 0..2 -> <<Pick(sd, path \o <<1>>, <<"ru", "rd", "ld", "lu">>), i>>
         [] f = 3 -> RndOpen(sd, path \o <<2>>, n)
         [] f = 4 -> RndOuter(sd, path \o <<3>>, n, q)
         [] f = 5 -> <<Pick(sd, path \o <<4>>, <<"add", "sub">>), RndVec(sd, path \o <<5>>, n, q), RndVec(sd, path \o <<6>>, n, q)>>
         [] f = 6 -> <<"mul", Gen0(sd, path \o <<5>>, n), RndVec(sd, path \o <<6>>, n, q)>>
         [] f = 7 -> Poly(sd, path \o <<5>>, n)
CoordCase(k) ==
    LET sd == SubSeed(k)
        n == Pick(sd, <<1>>, <<4, 4, 5>>)
        opn == Rnd(sd, <<2>>, 3) = 0
        c == 1 + Rnd(sd, <<3>>, 3)
        whole == [j \in 1..c |-> <<Pick(sd, <<4, j>>, <<"ru", "rd", "ld", "lu">>), RndLab(sd, <<5, j>>, n)>>]
        Z == IF opn THEN UNION {IF whole[j][1] \in {"ru", "rd"} THEN {<<"a", whole[j][2]>>, <<"b", whole[j][2]>>} ELSE {<<"c", whole[j][2]>>, <<"d", whole[j][2]>>} : j \in 1..c}
             ELSE {<<Pick(sd, <<6, j>>, CoordNames), RndLab(sd, <<7, j>>, n)>> : j \in 1..c}
        val(p, x, i) == IF <<x, i>> \in Z THEN 0 ELSE 1 + Rnd(sd, <<8, p, i, IF x = "a" THEN 1 ELSE IF x = "b" THEN 2 ELSE IF x = "c" THEN 3 ELSE 4>>, 46336)
        hit == SetSeq(Z)[1 + Rnd(sd, <<10>>, Cardinality(Z))]                 \* one spinor that is touched by the ideal
        qs == <<<<Pick(sd, <<11>>, IF hit[1] \in {"a", "b"} THEN <<"ru", "rd">> ELSE <<"ld", "lu">>), hit[2]>>>> \o [j \in 1..7 |-> OpenQ(sd, <<9, j>>, n)]
    IN [id |-> k, n |-> n, kind |-> "coord", open |-> opn, defs |-> [j \in 1..c |-> Toks(PlainStyle, whole[j])], vars |-> SetSeq(Z),
        pts |-> [p \in 1..3 |-> [i \in 1..n |-> <<<<<<val(p, "a", i)>>, <<val(p, "b", i)>>>>, <<<<val(p, "c", i), val(p, "d", i)>>>>>>]],
        qs |-> [j \in 1..Len(qs) |-> [ast |-> qs[j], toks |-> Toks(PlainStyle, qs[j])]],
        perm |-> Shuffle(sd, <<12>>, Upto(n)), par |-> Rnd(sd, <<13>>, 2) = 0]
Coords == "GCOORD" \in DOMAIN IOEnv

VARIABLES k, cases
vars == <<k, cases>>
Init == k = 0 /\ cases = <<>>
Next == \/ k < Count /\ k' = k + 1 /\ cases' = Append(cases, IF Coords THEN CoordCase(k + 1) ELSE Case(k + 1))
        \/ k = Count /\ JsonSerialize(Out, cases) /\ k' = k + 1 /\ cases' = <<>>
Spec == Init /\ [][Next]_vars
=============================================================================
