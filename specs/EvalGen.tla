------------------------------- MODULE EvalGen ------------------------------
(***************************************************************************)
(* Generator of evaluation obligations: (point, string, expected value).   *)
(* Everything is drawn from the specification: the phase-space point, the  *)
(* abstract expression, its notation and its value.  The harness prints    *)
(* the tokens, asks the implementation, and compares.                      *)
(***************************************************************************)
EXTENDS ExprGen, Json, IOUtils

EnvInt(name, dflt) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE dflt
Seed  == EnvInt("GSEED", 1)
Count == EnvInt("GCOUNT", 50)
Mode  == IF "GMODE" \in DOMAIN IOEnv THEN IOEnv["GMODE"] ELSE "atom"
Out   == IOEnv["GOUT"]
M     == EnvInt("GMOD", 10007)

----------------------------------------------------------------------------
(* One obligation.                                                          *)
PtJson(pt) == [k \in 1..Len(pt) |-> <<pt[k].r, pt[k].l, pt[k].P>>]
CaseJson(k, base, corners, spins, masses, st, e, v) ==
    [id |-> k, m |-> M, base |-> PtJson(base), corners |-> corners, spins |-> spins, masses |-> masses,
     toks |-> Toks(st, e), def |-> v # Undef, val |-> v, kind |-> e[1], ast |-> e]

\* masses: name -> value or alias expression
RndMasses(sd, path, n) ==
    LET cnt == Rnd(sd, path \o <<1>>, 4)
    IN [k \in 1..cnt |-> IF Rnd(sd, path \o <<2, k>>, 3) = 0
                         THEN <<MassNames[k], "e", <<"s", RndLabs(sd, path \o <<3, k>>, n, 2)>>>>
                         ELSE <<MassNames[k], "v", 1 + Rnd(sd, path \o <<4, k>>, 9000)>>]
MsFun(ms) == [x \in {ms[k][1] : k \in 1..Len(ms)} |-> LET k == CHOOSE j \in 1..Len(ms) : ms[j][1] = x IN <<ms[k][2], ms[k][3]>>]
MsNames(ms) == [k \in 1..Len(ms) |-> ms[k][1]]
MsJson(ms) == [k \in 1..Len(ms) |-> IF ms[k][2] = "v" THEN <<ms[k][1], ms[k][3]>> ELSE <<ms[k][1], Toks(PlainStyle, ms[k][3])>>]

SingleLegs(corners) == SelectSeq(Upto(Len(corners)), LAMBDA k : Len(corners[k]) = 1)
SubSeed(k) == (Seed * 7919 + k * 104729) % 60013
BasePt(k, n) == RndPoint(M, SubSeed(k \div 3), n)

CaseAtom(k) ==
    LET sd == SubSeed(k)
        clustered == Rnd(sd, <<1>>, 3) = 0
        n == IF clustered THEN Pick(sd, <<2>>, <<6, 7, 8>>) ELSE Pick(sd, <<2>>, <<4, 5, 6, 7, 8, 9>>)
        base == BasePt(k, n)
        corners == IF clustered THEN RndCorners(sd, <<3>>, n, Pick(sd, <<4>>, <<4, 5>>)) ELSE [j \in 1..n |-> <<j>>]
        spins == [j \in 1..Len(corners) |-> IF Len(corners[j]) = 2 /\ Rnd(sd, <<5, j>>, 2) = 0
                                             THEN <<Pick(sd, <<6, j>>, <<"u", "d">>), Rnd(sd, <<7, j>>, 3)>> ELSE NoSpin]
        pt == Cluster(M, base, corners, spins)
        sgl == SingleLegs(corners)
        withsp == SelectSeq(Upto(Len(corners)), LAMBDA j : Len(corners[j]) = 1 \/ spins[j] # NoSpin)
        e == AtomFor(sd, <<8>>, Len(pt), withsp, 1)
        st == [RndStyle(sd, <<10>>) EXCEPT !.two = "f", !.tex = "n"]
    IN CaseJson(k, base, IF clustered THEN corners ELSE <<>>, spins, <<>>, st, e, EvPt(M, pt, e))

CaseExp(k) ==
    LET sd == SubSeed(k)
        n == Pick(sd, <<2>>, <<4, 5, 6, 7>>)
        base == BasePt(k, n)
        ms == RndMasses(sd, <<3>>, n)
        open == Rnd(sd, <<4>>, 4) = 0
        e == IF open THEN RndOpenExp(sd, <<5>>, n, MsNames(ms)) ELSE RndExp(sd, <<5>>, n, MsNames(ms), 1 + Rnd(sd, <<6>>, 3))
        env == [pt |-> base, ms |-> MsFun(ms)]
        v == Ev(M, env, e)
    IN CaseJson(k, base, <<>>, <<>>, MsJson(ms), RndStyle(sd, <<10>>), e, v)

(* Chains between definite spin states of massive pairs of neighbouring legs.  *)
CaseSpin(k) ==
    LET sd == SubSeed(k)
        n == Pick(sd, <<2>>, <<5, 6, 7, 8, 9>>)
        base == BasePt(k, n)
        e == RndSpinExp(sd, <<5>>, n, Pick(sd, <<6>>, <<0, 0, 1, 2>>))
    IN CaseJson(k, base, <<>>, <<>>, <<>>, RndStyle(sd, <<10>>), e, EvPt(M, base, e))

(* Points of ten and more particles: labels of two digits, in the families whose notation separates labels. *)
WideKinds == {"ang", "sqr", "ru", "rd", "ld", "lu", "chain", "tr", "tr5"}
RECURSIVE WideAtom(_, _, _, _)
WideAtom(sd, path, n, tries) == LET e == RndAtom(sd, path \o <<tries>>, n, Upto(n)) IN IF e[1] \in WideKinds THEN e ELSE WideAtom(sd, path, n, tries + 1)
RECURSIVE WideScal(_, _, _, _)
WideScal(sd, path, n, tries) ==
    LET e == RndAtom(sd, path \o <<tries>>, n, Upto(n))
    IN IF e[1] \in {"ang", "sqr", "tr"} \/ (e[1] = "chain" /\ e[2] # "O" /\ e[5] # "O" /\ ChainOK(e[2], Len(e[4]), e[5])) THEN e ELSE WideScal(sd, path, n, tries + 1)
CaseWide(k) ==
    LET sd == SubSeed(k)
        n == Pick(sd, <<2>>, <<10, 11, 12>>)
        base == BasePt(k, n)
        a == WideScal(sd, <<5>>, n, 1)  b == WideScal(sd, <<6>>, n, 1)
        e == IF Mode = "wide" THEN WideAtom(sd, <<4>>, n, 1)
             ELSE CASE Rnd(sd, <<7>>, 4) = 0 -> <<"mul", a, b>> [] Rnd(sd, <<7>>, 4) = 1 -> <<"add", a, <<"mul", <<"num", 3>>, b>>>>
                    [] Rnd(sd, <<7>>, 4) = 2 -> <<"sub", <<"pow", a, 2>>, b>> [] OTHER -> <<"div", a, b>>
        st == [RndStyle(sd, <<10>>) EXCEPT !.two = "f", !.tex = "n"]
    IN CaseJson(k, base, <<>>, <<>>, <<>>, st, e, EvPt(M, base, e))

(* The generator as a behaviour: one obligation per step.                     *)
VARIABLES k, cases
vars == <<k, cases>>
Case(j) == CASE Mode = "atom" -> CaseAtom(j) [] Mode \in {"wide", "wideexp"} -> CaseWide(j) [] Mode = "spin" -> CaseSpin(j) [] OTHER -> CaseExp(j)
Init == k = 0 /\ cases = <<>>
Next == \/ /\ k < Count
           /\ k' = k + 1
           /\ cases' = Append(cases, Case(k + 1))
        \/ /\ k = Count
           /\ JsonSerialize(Out, cases)
           /\ k' = k + 1
           /\ cases' = <<>>
Spec == Init /\ [][Next]_vars
\* the specification's own points are massless and conserve momentum
SpecSane == (k \in 1..Count /\ k % 25 = 1) =>
              LET b == BasePt(k, Len(cases[k].base)) IN MomCons(M, b) /\ OnShell(M, b)
=============================================================================
