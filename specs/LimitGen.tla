------------------------------ MODULE LimitGen ------------------------------
(***************************************************************************)
(* Requests for points with prescribed values of one, two or more          *)
(* invariants: multiplicity, invariants (abstract and printed), targets.   *)
(* A target is <<class, number>>: "z" zero, "s" small, "g" generic.        *)
(***************************************************************************)
EXTENDS ExprGen, Json, IOUtils

EnvInt(name, dflt) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE dflt
Seed  == EnvInt("GSEED", 1)
Count == EnvInt("GCOUNT", 50)
Mode  == IF "GMODE" \in DOMAIN IOEnv THEN IOEnv["GMODE"] ELSE "one"
Out   == IOEnv["GOUT"]

SubSeed(k) == (Seed * 7919 + k * 104729) % 60013

\* a sum of c distinct legs avoiding a set of labels (as many as there are)
Avoid(sd, path, n, bad, c) ==
    LET free == SelectSeq(Shuffle(sd, path, Upto(n)), LAMBDA x : x \notin bad)
        cc == IF c > Len(free) THEN Len(free) ELSE c
    IN [j \in 1..cc |-> <<1, free[j]>>]
RndSide(sd, path) == Pick(sd, path, <<"A", "S">>)
\* chains of the shape found in the lists of invariants: every sum has at least two legs
ChainShape(sd, path, n, c) ==
    LET s == RndSide(sd, path \o <<1>>)
        i == RndLab(sd, path \o <<2>>, n)
        j0 == RndLab(sd, path \o <<3>>, n)
        size(t) == 2 + Rnd(sd, path \o <<4, t>>, 2)
        \* a single sum avoids both ends; otherwise each sum avoids the end next to it
        mids == [t \in 1..c |-> Avoid(sd, path \o <<5, t>>, n,
                     (IF t = 1 THEN {i} ELSE {}) \cup (IF t = c THEN {j0} ELSE {}), size(t))]
    IN <<"chain", s, i, mids, ClosedEnd(s, c), j0>>
MandShape(sd, path, n) == <<"s", RndLabs(sd, path \o <<1>>, n, IF n <= 5 THEN 2 + Rnd(sd, path \o <<2>>, 2) ELSE 3 + Rnd(sd, path \o <<2>>, n - 5))>>
RotL(n, k) == [j \in 1..n |-> 1 + ((k + j - 1) % n)]
\* three consecutive corners of at least two legs each
GramShape(sd, path, n) ==
    LET r == RotL(n, Rnd(sd, path \o <<1>>, n))
        a == 2 + Rnd(sd, path \o <<2>>, n - 5)
        b == 2 + Rnd(sd, path \o <<3>>, n - a - 3)
    IN IF Rnd(sd, path \o <<4>>, 2) = 0 THEN <<"D3", <<r[1], r[a + 1], r[a + b + 1]>>>>
       ELSE <<"D", <<SubSeq(r, 1, a), SubSeq(r, a + 1, a + b), SubSeq(r, a + b + 1, n)>>>>
\* three corners of two legs at six points, otherwise anything
AltIJK(sd, path, n) == IF n = 6 THEN LET t == Shuffle(sd, path \o <<1>>, <<1, 3, 5>>)
                                         d == Rnd(sd, path \o <<2>>, 2) IN [j \in 1..3 |-> t[j] + d]
                       ELSE RndIJK(sd, path, n)
OmShape(sd, path, n) == <<"Om", AltIJK(sd, path, n)>>
PiShape(sd, path, n) == LET t == AltIJK(sd, path, n) IN IF Len(NOL(n, t)[1]) >= 2 THEN <<"Pi", t>> ELSE <<"Om", t>>
Tr5Shape(sd, path, n) == LET L == RndLabs(sd, path, n, 4) IN <<"tr5", [j \in 1..4 |-> <<<<1, L[j]>>>>]>>
DiffShape(sd, path, n) ==
    LET L == RndLabs(sd, path, n, 6)
        cd == <<<<1, L[3]>>, <<1, L[4]>>>>
        one(x) == <<<<1, x>>>>
    IN <<"sub", <<"chain", "A", L[1], <<one(L[2]), cd, one(L[5])>>, "S", L[1]>>,
                <<"chain", "A", L[2], <<one(L[6]), cd, one(L[5])>>, "S", L[2]>>>>
Diff5(n) == IF n >= 6 THEN <<"diff">> ELSE <<>>
Fams(n) == <<"two", "two", "c1", "c1", "c2", "c3", "s", "s", "tr5", "any">> \o (IF n >= 6 THEN <<"D", "D", "Om", "Pi", "diff">> ELSE <<>>)
RECURSIVE RndAny(_, _, _, _)
RndAny(sd, path, n, t) == LET e == RndAtom(sd, path \o <<t>>, n, Upto(n))
                       IN IF (e[1] \in {"ang", "sqr", "s", "tr", "tr5", "D3", "Om", "Pi"} \/ (e[1] = "chain" /\ e[2] # "O" /\ e[5] # "O" /\ ChainOK(e[2], Len(e[4]), e[5]))) \/ t > 15
                          THEN (IF t > 15 THEN <<"ang", 1, 2>> ELSE e) ELSE RndAny(sd, path, n, t + 1)
Shape(sd, path, n, f) ==
    CASE f = "two" -> RndTwo(sd, path, n)
      [] f = "c1" -> ChainShape(sd, path, n, 1)
      [] f = "c2" -> ChainShape(sd, path, n, 2)
      [] f = "c3" -> ChainShape(sd, path, n, 3)
      [] f = "s" -> MandShape(sd, path, n)
      [] f = "D" -> GramShape(sd, path, n)
      [] f = "Om" -> OmShape(sd, path, n)
      [] f = "Pi" -> PiShape(sd, path, n)
      [] f = "tr5" -> Tr5Shape(sd, path, n)
      [] f = "diff" -> DiffShape(sd, path, n)
      [] f = "any" -> RndAny(sd, path, n, 1)

Target(sd, path) == <<Pick(sd, path \o <<1>>, <<"z", "s", "g", "g">>), 1 + Rnd(sd, path \o <<2>>, 30000)>>
\* targets of a pair: mostly distinct, sometimes equal, sometimes both zero or both small
Targets(sd, path, c) ==
    LET k == Rnd(sd, path \o <<9>>, 4)
        t1 == Target(sd, path \o <<1>>)
    IN CASE k = 0 -> [j \in 1..c |-> t1]
         [] k = 1 -> [j \in 1..c |-> <<Pick(sd, path \o <<8>>, <<"z", "s">>), 1 + Rnd(sd, path \o <<2, j>>, 30000)>>]
         [] OTHER -> [j \in 1..c |-> Target(sd, path \o <<j>>)]

ReqStyle(sd, path) == [PlainStyle EXCEPT !.par = Pick(sd, path, <<"y", "y", "n">>)]
Printed(st0, e) == LET st == IF e[1] = "tr5" THEN [st0 EXCEPT !.two = IF st0.par = "y" THEN "s" ELSE "f"] ELSE st0 IN IF e[1] = "sub" THEN T("(") \o Toks(st, e[2]) \o T("-") \o Toks(st, e[3]) \o T(")") ELSE Toks(st, e)
Req(k, n, fs, es, tg, st) ==
    [id |-> k, n |-> n, seed |-> SubSeed(k), fams |-> fs, asts |-> es, toks |-> [j \in 1..Len(es) |-> Printed(st, es[j])], tgt |-> tg,
     \* what happened to the point before: nothing, or another invariant was set to a generic value
     prior |-> LET sd == SubSeed(k) IN IF Rnd(sd, <<31>>, 3) # 0 THEN <<>>
                ELSE <<Printed(st, RndTwo(sd, <<32>>, n)), 1 + Rnd(sd, <<33>>, 30000)>>]

CaseOne(k) ==
    LET sd == SubSeed(k)
        n == Pick(sd, <<1>>, <<4, 5, 5, 6, 6, 6, 7, 7, 8>>)
        f == Pick(sd, <<2>>, Fams(n))
        e == Shape(sd, <<3>>, n, f)
    IN Req(k, n, <<f>>, <<e>>, <<Target(sd, <<4>>)>>, ReqStyle(sd, <<5>>))
PFams(n) == <<"two", "two", "two", "c1", "c1", "s", "s", "c2">> \o (IF n >= 6 THEN <<"D", "any", "tr5">> ELSE <<>>)
\* the second invariant often lives on the same legs as the first
CasePair(k) ==
    LET sd == SubSeed(k)
        n == Pick(sd, <<1>>, <<4, 5, 5, 6, 6, 6, 7, 7, 8>>)
        f == <<Pick(sd, <<2>>, PFams(n)), Pick(sd, <<3>>, PFams(n))>>
        e == [j \in 1..2 |-> Shape(sd, <<4, j>>, n, f[j])]
        \* s_ijk with <i|(j+k)|i], the pair with a construction of its own
        L == RndLabs(sd, <<5>>, n, 3)
        tw == <<<<"s", L>>, <<"chain", "A", L[1], <<<<<<1, L[2]>>, <<1, L[3]>>>>>>, "S", L[1]>>>>
        sp == Rnd(sd, <<6>>, 12) = 0 /\ n >= 6
        ord == Rnd(sd, <<7>>, 2)
    IN Req(k, n, IF sp THEN <<"s", "c1">> ELSE f, IF ~sp THEN e ELSE IF ord = 0 THEN tw ELSE <<tw[2], tw[1]>>, Targets(sd, <<8>>, 2), ReqStyle(sd, <<9>>))

\* one to three invariants, simple or sums and differences of two; orders for p-adic fields
SmallShape(sd, path, n) ==
    LET k == Rnd(sd, path \o <<1>>, 14)
    IN CASE k \in 0..4 -> RndTwo(sd, path \o <<2>>, n)
         [] k \in 5..6 -> <<"s", RndLabs(sd, path \o <<3>>, n, 2)>>
         [] k \in 7..8 -> IF n >= 5 THEN ChainShape(sd, path \o <<4>>, n, 1) ELSE RndTwo(sd, path \o <<2>>, n)
         [] k = 9 -> IF n >= 6 THEN <<"s", RndLabs(sd, path \o <<5>>, n, 3)>> ELSE RndTwo(sd, path \o <<2>>, n)
         [] k = 10 -> IF n >= 5 THEN Tr5Shape(sd, path \o <<6>>, n) ELSE RndTwo(sd, path \o <<2>>, n)
         [] k = 11 -> <<"sub", <<"s", RndLabs(sd, path \o <<7>>, n, 2)>>, <<"s", RndLabs(sd, path \o <<8>>, n, 2)>>>>
         [] k = 12 -> <<Pick(sd, path \o <<9>>, <<"sub", "add">>), RndTwo(sd, path \o <<10>>, n), RndTwo(sd, path \o <<11>>, n)>>
         [] k = 13 -> RndTwo(sd, path \o <<2>>, n)
PlainPrinted(st, e) == IF e[1] \in {"sub", "add"} THEN Toks(st, e[2]) \o T(IF e[1] = "sub" THEN "-" ELSE "+") \o Toks(st, e[3]) ELSE Printed(st, e)
CaseVar(k) ==
    LET sd == SubSeed(k)
        n == Pick(sd, <<1>>, <<4, 5, 5, 5, 6, 6>>)
        c == Pick(sd, <<2>>, <<1, 1, 2, 2, 2, 3>>)
        e == [j \in 1..c |-> SmallShape(sd, <<3, j>>, n)]
        st == ReqStyle(sd, <<5>>)
    IN [Req(k, n, [j \in 1..c |-> "v"], e, [j \in 1..c |-> <<"s", 1 + Rnd(sd, <<4, j>>, 30000)>>], st)
          EXCEPT !.toks = [j \in 1..c |-> PlainPrinted(st, e[j])]]
       @@ [ord |-> [j \in 1..c |-> 1 + Rnd(sd, <<6, j>>, 2)], solver |-> Rnd(sd, <<7>>, 3) > 0, direct |-> Rnd(sd, <<8>>, 6) = 0,
           ffval |-> [j \in 1..c |-> IF Rnd(sd, <<9>>, 4) = 0 THEN 1 + Rnd(sd, <<10, j>>, 3) ELSE 0]]

\* slices: algorithm, constraints, expressions to evaluate on the slice, parameter values to substitute
SlShape(sd, path, n) ==
    LET k == Rnd(sd, path \o <<1>>, 8)
    IN CASE k \in 0..3 -> RndTwo(sd, path \o <<2>>, n)
         [] k = 4 -> <<"s", RndLabs(sd, path \o <<3>>, n, 2)>>
         [] k = 5 -> IF n >= 6 THEN <<"s", RndLabs(sd, path \o <<3>>, n, 3)>> ELSE RndTwo(sd, path \o <<2>>, n)
         [] k = 6 -> IF n >= 5 THEN ChainShape(sd, path \o <<4>>, n, 1) ELSE RndTwo(sd, path \o <<2>>, n)
         [] k = 7 -> IF n >= 5 THEN Tr5Shape(sd, path \o <<5>>, n) ELSE RndTwo(sd, path \o <<2>>, n)
CaseSlice(k) ==
    LET sd == SubSeed(k)
        alg == Pick(sd, <<1>>, <<"cov", "cov", "cov", "gen", "biv", "biv">>)
        n == Pick(sd, <<2>>, IF alg = "biv" THEN <<5, 6, 6, 7>> ELSE <<4, 5, 5, 6, 7>>)
        c == Pick(sd, <<3>>, IF alg = "biv" THEN <<0, 0, 1>> ELSE <<0, 1, 1, 1, 2>>)
        st == PlainStyle
        cs == [j \in 1..c |-> SlShape(sd, <<4, j>>, n)]
        es == [j \in 1..4 |-> SlShape(sd, <<5, j>>, n)]
    IN [id |-> k, n |-> n, alg |-> alg, seed |-> SubSeed(k), unseeded |-> Rnd(sd, <<8>>, 5) = 0, cons |-> cs, ctoks |-> [j \in 1..c |-> Printed(st, cs[j])],
        exprs |-> es, etoks |-> [j \in 1..4 |-> Printed(st, es[j])], split |-> Rnd(sd, <<6>>, 2) = 0,
        tv |-> [j \in 1..3 |-> <<IF j = 1 THEN 0 ELSE Rnd(sd, <<7, j, 1>>, 29000), Rnd(sd, <<7, j, 2>>, 29000)>>]]

VARIABLES k, cases
vars == <<k, cases>>
Case(j) == CASE Mode = "one" -> CaseOne(j) [] Mode = "two" -> CasePair(j) [] Mode = "var" -> CaseVar(j) [] Mode = "slice" -> CaseSlice(j)
Init == k = 0 /\ cases = <<>>
Next == \/ /\ k < Count
           /\ k' = k + 1
           /\ cases' = Append(cases, Case(k + 1))
        \/ /\ k = Count
           /\ JsonSerialize(Out, cases)
           /\ k' = k + 1
           /\ cases' = <<>>
Spec == Init /\ [][Next]_vars
=============================================================================
