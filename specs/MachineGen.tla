----------------------------- MODULE MachineGen -----------------------------
(***************************************************************************)
(* Behaviours of Machine.tla: random histories of user operations.  The    *)
(* model executes them itself (its invariants are checked on the way); the *)
(* histories are written out and replayed into the code.                   *)
(***************************************************************************)
EXTENDS Machine, ExprGen, Json, IOUtils

EnvInt(name, dflt) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE dflt
Seed  == EnvInt("GSEED", 1)
Count == EnvInt("GCOUNT", 10)          \* number of histories
Steps == EnvInt("GSTEPS", 12)          \* length of each
Prof  == IOEnv["GPROF"]
Out   == IOEnv["GOUT"]
M     == EnvInt("GMOD", 46337)
IM    == EnvInt("GIM", 0)              \* a square root of -1 in Z/M, 0 if none
NMax  == EnvInt("GNMAX", 6)
NMin  == EnvInt("GNMIN", 3)
Small == EnvInt("GSMALL", 0)           \* > 0: data small enough to be exact over the integers (fields of characteristic 0)
Rational == EnvInt("GRAT", 0) = 1      \* operations available over the rationals only
Mpc   == EnvInt("GMPC", 0) = 1         \* complex numbers: real momenta can be asked for
H     == 4

Mutators == <<"set", "lset", "fix", "fix0", "afs", "rand1", "seti", "ins", "del", "setm", "setm", "rand", "fixr", "poke", "poke", "refset", "refset", "setref">>
Producers == <<"copy", "deepcopy", "pickle", "image", "cluster", "arith">>
Readers == <<"eval", "lget", "get", "slice", "comp", "mcc", "osc", "eq", "hash", "ldot", "m2", "totmom", "show", "imgeval">>
ProfOps ==
    CASE Prof = "C01" -> <<"new", "new", "new", "rand", "rand", "twist", "twist", "rand1", "fix0", "copy", "new">>
      [] Prof = "C02" -> <<"set", "set", "set", "set", "set", "set", "makep", "lset", "afs", "conv", "copy", "fix", "image", "fixr">>
      [] Prof = "C03" -> <<"fix", "fix", "fix", "fix", "fix0", "fix0", "fixr", "fixr", "set", "lset", "rand1", "copy", "afs", "make">>
      [] Prof = "C05" -> Mutators \o Producers \o <<"eval", "eval", "eval", "setm", "setm">>
      [] Prof = "C07" -> <<"image", "image", "image", "imgeval", "imgeval", "imgeval", "imgeval", "afs", "copy", "set", "fix", "setm", "cluster", "eq">>
      [] Prof = "C08" -> <<"cluster", "cluster", "cluster", "cluster", "eval", "eval", "make", "setm", "image", "copy", "fix">>
      [] Prof = "C13" -> Producers \o Producers \o Mutators \o <<"eq", "hash", "eq", "hash", "eval", "show", "mcc", "osc", "copy", "deepcopy", "pickle">>
      [] Prof = "C14" -> <<"set", "fix", "fix", "make", "cluster", "lset", "bump", "bump", "bump", "poke", "seti", "del">>
      [] Prof = "C19" -> <<"lset", "lset", "lget", "lget", "get", "get", "slice", "slice", "comp", "seti", "seti", "ins", "ins", "del", "del", "compl", "nol", "set", "image", "make">>
      [] Prof = "C22" -> <<"arith", "arith", "arith", "arith", "arith", "ldot", "m2", "mass", "totmom", "cluster", "eq", "set", "set", "poke", "poke", "afs">>
      [] Prof = "C21" -> <<"polar", "polar", "polar", "polar", "polar", "polar", "polar", "polar", "setref", "copy", "fix", "lset", "image", "make">>
      [] OTHER -> Mutators \o Producers \o Readers

RatOps == {"slice", "make", "new", "rand", "rand1", "copy", "deepcopy", "pickle", "image", "afs", "set", "lset", "lget", "get", "seti", "ins", "del", "fix", "fix0",
           "eval", "imgeval", "mcc", "osc", "eq", "hash", "ldot", "m2", "totmom", "show", "compl", "nol", "setm", "pcc", "polar", "setref", "poke", "refset", "bump"}

----------------------------------------------------------------------------
(* Data.                                                                    *)
RndM(sd, path) == Rnd(sd, path, IF Small > 0 THEN Small ELSE M)
RndCol(sd, path) == << <<RndM(sd, path \o <<1>>)>>, <<RndM(sd, path \o <<2>>)>> >>
RndRow(sd, path) == << <<RndM(sd, path \o <<3>>), RndM(sd, path \o <<4>>)>> >>
\* every so often: zero components, spinors proportional to the previous particle's, or equal momenta
RndData(sd, path, n) ==
    LET raw == [k \in 1..n |-> <<RndCol(sd, path \o <<k>>), RndRow(sd, path \o <<k>>)>>]
    IN [k \in 1..n |->
          LET c == Rnd(sd, path \o <<k, 9>>, 12)
              q == 1 + (RndM(sd, path \o <<k, 8>>) % 50)
          IN CASE c = 0 /\ k > 1 -> <<MScale(M, q, raw[k - 1][1]), raw[k][2]>>
               [] c = 1 /\ k > 1 -> <<raw[k][1], MScale(M, q, raw[k - 1][2])>>
               [] c = 2 /\ k > 1 -> raw[k - 1]
               [] OTHER -> raw[k]]
\* a conserving point mod M is not one in characteristic 0: there, conservation is established by a repair
ConsData(sd, path, n) == IF Small > 0 THEN RndData(sd, path, n) ELSE LET pt == RndPoint(M, Rnd(sd, path, 60000), n) IN [k \in 1..n |-> <<pt[k].r, pt[k].l>>]
\* momenta: massless with a square P0+P3, massive, or with P0+P3 = 0
RndMomP(sd, path) ==
    LET c == Rnd(sd, path \o <<9>>, 6)
        q == 1 + (RndM(sd, path \o <<1>>) % (M - 1))
        b == RndM(sd, path \o <<2>>)
        d == RndM(sd, path \o <<3>>)
    IN CASE c = 0 -> << <<RndM(sd, path \o <<4>>), RndM(sd, path \o <<5>>)>>, <<RndM(sd, path \o <<6>>), RndM(sd, path \o <<7>>)>> >>
         [] c = 1 -> OuterP(M, << <<0>>, <<q>> >>, << <<b, d>> >>)
         [] OTHER -> OuterP(M, << <<q>>, <<b>> >>, << <<q, d>> >>)
RndPerm(sd, path, n) == Shuffle(sd, path, Upto(n))

(* Expressions that can be relabelled.                                       *)
RelFams == <<"two", "two", "chain", "chain", "chain", "s", "tr", "tr5", "D">>
RndRelAtom(sd, path, n) ==
    LET f == Pick(sd, path \o <<99>>, RelFams)
    IN CASE f = "two" -> RndTwo(sd, path, n)
         [] f = "chain" -> RndChain(sd, path, n)
         [] f = "s" -> RndMand(sd, path, n)
         [] f = "tr" -> IF n >= 2 THEN RndTr(sd, path, n) ELSE RndTwo(sd, path, n)
         [] f = "tr5" -> IF n >= 4 THEN RndTr5(sd, path, n, Upto(n)) ELSE RndTwo(sd, path, n)
         [] f = "D" -> RndGram(sd, path, n)
RndRelExp(sd, path, n) ==
    LET k == Rnd(sd, path \o <<50>>, 5)
        x == RndRelAtom(sd, path \o <<1>>, n)
        y == RndRelAtom(sd, path \o <<2>>, n)
    IN CASE k \in {0, 1} -> x
         [] k = 2 -> <<"mul", x, y>>
         [] k = 3 -> <<"add", x, <<"mul", <<"num", 3>>, y>>>>
         [] k = 4 -> <<"sub", <<"pow", x, 2>>, y>>

----------------------------------------------------------------------------
(* Choosing an operation in a state.                                        *)
Points(s) == SelectSeq(Upto(H), LAMBDA h : s[h].kind = "Ps")
Parts(s) == SelectSeq(Upto(H), LAMBDA h : s[h].kind = "P")
Existing(s) == SelectSeq(Upto(H), LAMBDA h : s[h].kind # "none")
SpinorLegs(o) == SelectSeq(Upto(Len(o.legs)), LAMBDA k : HasSp(o.legs[k]) /\ o.legs[k].sp = "none")
FixPairs(o, axis) == {ab \in (1..Len(o.legs)) \X (1..Len(o.legs)) : ab[1] # ab[2] /\ FixDefined(M, o.legs, ab[1], ab[2], axis)}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

\* corners of a clustering: cut a shuffled list
ClCorners(sd, path, n) == RndCorners(sd, path, n, 1 + Rnd(sd, path \o <<77>>, n))
RndNewMass(sd, path, n, k) ==             \* labels of aliases and permutations are written without separators: one digit each
    IF n > 9 \/ Rnd(sd, path \o <<1>>, 2) = 0 THEN <<MassNames[k], "v", <<RndM(sd, path \o <<2>>)>>>>
    ELSE <<MassNames[k], "e", RndLabs(sd, path \o <<3>>, n, IF n < 2 THEN 1 ELSE 2)>>
RndMs(sd, path, n) == LET c == Rnd(sd, path \o <<1>>, 3) IN [k \in 1..c |-> RndNewMass(sd, path \o <<2, k>>, n, k)]
Leaf(sd, path, s) ==
    LET ex == Existing(s)
        h == Pick(sd, path \o <<1>>, ex)
    IN <<"leg", h, 1 + Rnd(sd, path \o <<2>>, Len(s[h].legs))>>
RECURSIVE RndTree(_, _, _, _)
RndTree(sd, path, s, d) ==
    IF d = 0 THEN Leaf(sd, path, s)
    ELSE LET k == Rnd(sd, path \o <<50>>, 10)
             x == RndTree(sd, path \o <<1>>, s, d - 1)
             y == RndTree(sd, path \o <<2>>, s, d - 1)
             c == IF Rnd(sd, path \o <<7>>, 3) = 0 THEN 1 ELSE 1 + (RndM(sd, path \o <<3>>) % 100)
         IN CASE k \in {0, 1} -> <<"add", x, y>>
              [] k \in {2, 3} -> <<"sub", x, y>>
              [] k = 4 -> <<"neg", x>>
              [] k = 5 -> <<"mul", x, c>>
              [] k = 6 -> <<"rmul", x, c>>
              [] k = 7 -> <<"div", x, c>>
              [] k = 9 -> <<Pick(sd, path \o <<6>>, <<"add0", "radd0", "sub0">>), x>>
              [] k = 8 -> <<"sum", [j \in 1..(1 + Rnd(sd, path \o <<4>>, 4)) |-> RndTree(sd, path \o <<5, j>>, s, d - 1)]>>
\* one operation that leaves the momentum as it is, so that a result which is the operand itself shows when either changes
Neutral(sd, path, s) ==
    LET x == Leaf(sd, path \o <<1>>, s)
        k == Rnd(sd, path \o <<2>>, 7)
    IN CASE k = 0 -> <<"mul", x, 1>> [] k = 1 -> <<"rmul", x, 1>> [] k = 2 -> <<"div", x, 1>>
         [] k = 3 -> <<"sum", <<x>>>> [] OTHER -> <<<<"add0", "radd0", "sub0">>[k - 3], x>>
\* whether a result with a spin index is a plain particle is left open when the operation leaves the momentum as it is
RECURSIVE SpinRoot(_, _)
SpinRoot(s, t) == CASE t[1] = "leg" -> s[t[2]].legs[t[3]].sp # "none"
                    [] t[1] \in {"add0", "radd0", "sub0"} -> SpinRoot(s, t[2])
                    [] t[1] = "sum" -> Len(t[2]) = 1 /\ SpinRoot(s, t[2][1])
                    [] t[1] \in {"mul", "rmul", "div"} -> t[3] = 1 /\ SpinRoot(s, t[2])
                    [] OTHER -> FALSE
RECURSIVE Used(_)
Used(t) == CASE t[1] = "leg" -> {t[2]}
             [] t[1] \in {"add", "sub"} -> Used(t[2]) \cup Used(t[3])
             [] t[1] \in {"neg", "mul", "rmul", "div", "add0", "radd0", "sub0"} -> Used(t[2])
             [] t[1] = "sum" -> UNION {Used(t[2][k]) : k \in 1..Len(t[2])}
RECURSIVE Divs(_)
Divs(t) == CASE t[1] = "leg" -> {}
             [] t[1] \in {"add", "sub"} -> Divs(t[2]) \cup Divs(t[3])
             [] t[1] \in {"neg", "mul", "rmul", "add0", "radd0", "sub0"} -> Divs(t[2])
             [] t[1] = "div" -> {t[3]} \cup Divs(t[2])
             [] t[1] = "sum" -> UNION {Divs(t[2][k]) : k \in 1..Len(t[2])}
LinearOK(t) == \A c \in Divs(t) : IsUnit(M, c)
RepSeq == IF IM > 0 THEN <<"rd", "ru", "ld", "lu", "P", "Pb", "p", "pd">> ELSE <<"rd", "ru", "ld", "lu", "P", "Pb">>
LabReps == <<"rd", "ru", "ld", "lu">>
RepData(sd, path, rep) ==
    CASE rep = "rd" -> RndCol(sd, path)
      [] rep = "ru" -> RndRow(sd, path)
      [] rep = "ld" -> RndRow(sd, path)
      [] rep = "lu" -> RndCol(sd, path)
      [] rep = "P" -> RndMomP(sd, path)
      [] rep = "Pb" -> Flip(M, RndMomP(sd, path))
      [] rep = "p" -> FourMom(M, IM, RndMomP(sd, path))
      [] rep = "pd" -> LowerMu(M, FourMom(M, IM, RndMomP(sd, path)))
RndLegD(sd, path) == <<RndCol(sd, path), RndRow(sd, path)>>
TwoBr(n) == LET prs == SetSeq({ij \in (1..n) \X (1..n) : ij[1] < ij[2]})
            IN [k \in 1..Len(prs) |-> <<"ang", prs[k][1], prs[k][2]>>] \o [k \in 1..Len(prs) |-> <<"sqr", prs[k][1], prs[k][2]>>]
Fallback(sd, path, h, g) == [op |-> "copy", h |-> h, g |-> g]

\* objects related by the previous operation
Related(s, last) == (IF "g" \in DOMAIN last /\ s[last.g].kind = "Ps" THEN <<last.g>> ELSE <<>>) \o (IF "h" \in DOMAIN last /\ s[last.h].kind = "Ps" THEN <<last.h>> ELSE <<>>)
                    \o (IF "used" \in DOMAIN last THEN SelectSeq(last.used, LAMBDA u : s[u].kind = "Ps") ELSE <<>>)
GenOp(sd, path, s, last) ==
    LET after == Prof = "C13" /\ last.op \in {"copy", "deepcopy", "pickle", "image", "cluster", "arith"} /\ Rnd(sd, path \o <<0>>, 4) > 0      \* touch what was just derived
        base == IF after THEN Mutators
                ELSE IF Prof = "C14" /\ path[1] % 2 = 0 THEN <<"mcc", "osc", "mcc", "pcc", "pcc">>                                       \* ask after every change
                ELSE IF Prof = "C05" /\ path[1] % 2 = 0 THEN <<"eval">>
                ELSE ProfOps
        ops == IF Rational THEN SelectSeq(base, LAMBDA x : x \in RatOps) ELSE base
        nm == Pick(sd, path \o <<1>>, ops)
        pts == Points(s)
        rel == IF (after \/ Prof \in {"C14", "C05"}) /\ Related(s, last) # <<>> THEN Related(s, last) ELSE pts
        h == Pick(sd, path \o <<2>>, rel)
        o == s[h]
        n == Len(o.legs)
        g0 == 1 + Rnd(sd, path \o <<3>>, H)
        g == IF g0 = h \/ (Len(pts) = 1 /\ g0 = pts[1]) THEN 1 + (h % H) ELSE g0
        i == 1 + Rnd(sd, path \o <<4>>, n)
        sl == SpinorLegs(o)
        si == IF sl = <<>> THEN 0 ELSE Pick(sd, path \o <<5>>, sl)
        anyi == Rnd(sd, path \o <<6>>, n + 4) - 1                \* -1 .. n+2
        axis == 1 + Rnd(sd, path \o <<7>>, 2)
        full == HasAllSp(o.legs)
        fb == Fallback(sd, path, h, g)
        nn == NMin + Rnd(sd, path \o <<8>>, NMax - NMin + 1)
    IN CASE nm = "make" -> [op |-> "make", h |-> g, legs |-> IF Rnd(sd, path \o <<9>>, 2) = 0 THEN RndData(sd, path \o <<10>>, nn) ELSE ConsData(sd, path \o <<10>>, nn),
                            ms |-> RndMs(sd, path \o <<11>>, nn)]
         [] nm = "makep" -> LET shape == Pick(sd, path \o <<9>>, IF IM > 0 THEN <<"p", "P">> ELSE <<"P">>)
                                P == [k \in 1..nn |-> RndMomP(sd, path \o <<10, k>>)]
                            IN [op |-> "makep", h |-> g, shape |-> shape, vals |-> [k \in 1..nn |-> IF shape = "p" THEN FourMom(M, IM, P[k]) ELSE P[k]]]
         [] nm = "new" -> [op |-> "new", h |-> g, n |-> nn, names |-> SubSeq(MassNames, 1, Rnd(sd, path \o <<9>>, 3)),
                          coll |-> Rnd(sd, path \o <<12>>, 3), real |-> Mpc /\ Rnd(sd, path \o <<13>>, 2) = 0]
         [] nm \in {"copy", "deepcopy", "pickle"} -> [op |-> nm, h |-> h, g |-> g]
         [] nm = "image" -> IF n > 9 THEN fb                                \* permutations are strings of one-digit labels
                            ELSE [op |-> "image", h |-> h, g |-> g, perm |-> RndPerm(sd, path \o <<9>>, n), par |-> Rnd(sd, path \o <<10>>, 2) = 0,
                             asrule |-> Rnd(sd, path \o <<11>>, 2) = 0]
         [] nm = "afs" -> [op |-> "afs", h |-> h]
         [] nm = "imgeval" -> IF ~full \/ n < 3 \/ n > 9 THEN fb
                              ELSE LET e == RndRelExp(sd, path \o <<9>>, n)
                                       p == RndPerm(sd, path \o <<10>>, n)
                                       par == Rnd(sd, path \o <<11>>, 2) = 0
                                   IN [op |-> "imgeval", h |-> h, perm |-> p, par |-> par, ast |-> e, toks |-> Toks(PlainStyle, Relabel(<<p, par>>, e))]
         [] nm = "cluster" -> LET cs == ClCorners(sd, path \o <<9>>, n)
                                  sp == [k \in 1..Len(cs) |-> IF Len(cs[k]) = 2 /\ full /\ Rnd(sd, path \o <<10, k>>, 2) = 0
                                                               THEN <<Pick(sd, path \o <<11, k>>, <<"u", "d">>), Rnd(sd, path \o <<12, k>>, 3)>> ELSE NoSpin]
                              IN [op |-> "cluster", h |-> h, g |-> g, corners |-> cs, spins |-> sp]
         [] nm \in {"set", "lset"} ->
               LET rep == Pick(sd, path \o <<9>>, IF nm = "set" /\ ~Rational THEN RepSeq ELSE LabReps)
                   ii == IF rep \in {"rd", "ru", "ld", "lu"} THEN si ELSE i
               IN IF ii = 0 THEN fb ELSE [op |-> nm, h |-> h, i |-> ii, rep |-> rep, val |-> RepData(sd, path \o <<10>>, rep)]
         [] nm = "poke" -> LET parts == Parts(s)
                               single == parts # <<>> /\ Rnd(sd, path \o <<9>>, 3) = 0
                               hp == IF single THEN Pick(sd, path \o <<10>>, parts) ELSE h
                               ip == IF single THEN (IF HasSp(s[hp].legs[1]) THEN 1 ELSE 0) ELSE si
                           IN IF ip = 0 THEN fb
                              ELSE [op |-> "poke", h |-> hp, i |-> ip, rep |-> Pick(sd, path \o <<11>>, <<"rd", "ld">>), comp |-> 1 + Rnd(sd, path \o <<12>>, 2), val |-> RndM(sd, path \o <<13>>)]
         [] nm = "refset" -> [op |-> "refset", h |-> h, leg |-> RndLegD(sd, path \o <<9>>)]
         [] nm = "bump" -> IF n >= 8 THEN fb                     \* an extra particle whose momentum has a single component
                           ELSE LET q == 1 + (RndM(sd, path \o <<9>>) % (M - 1))
                                    a == Rnd(sd, path \o <<10>>, 2)
                                    b == Rnd(sd, path \o <<11>>, 2)
                                IN [op |-> "ins", h |-> h, i |-> i, leg |-> << << <<q * (1 - a)>>, <<q * a>> >>, << <<1 - b, b>> >> >>]
         [] nm = "lget" -> IF si = 0 THEN fb ELSE [op |-> "lget", h |-> h, i |-> si, rep |-> Pick(sd, path \o <<9>>, LabReps)]
         [] nm = "get" -> [op |-> "get", h |-> h, i |-> anyi, as |-> IF anyi \in 0..9 /\ Rnd(sd, path \o <<9>>, 3) = 0 THEN "label" ELSE "int"]
         [] nm = "slice" -> [op |-> "slice", h |-> h, lo |-> Rnd(sd, path \o <<9>>, n + 1), hi |-> Rnd(sd, path \o <<10>>, n + 3), st |-> 1 + Rnd(sd, path \o <<11>>, 2)]
         [] nm = "comp" -> IF IM = 0 THEN fb ELSE [op |-> "comp", h |-> h, i |-> i, mu |-> Rnd(sd, path \o <<9>>, 4)]
         [] nm = "mass" -> IF Mpc THEN [op |-> "mass", h |-> h] ELSE fb
         [] nm = "seti" -> [op |-> "seti", h |-> h, i |-> anyi, leg |-> RndLegD(sd, path \o <<9>>)]
         [] nm = "ins" -> IF n >= 8 THEN fb ELSE [op |-> "ins", h |-> h, i |-> anyi, leg |-> RndLegD(sd, path \o <<9>>)]
         [] nm = "del" -> IF n <= 3 THEN fb ELSE [op |-> "del", h |-> h, i |-> anyi]
         [] nm = "fix" -> IF ~full THEN fb
                          ELSE LET prs == SetSeq(FixPairs(o, axis))
                               IN IF prs = <<>> THEN fb
                                  ELSE LET ab == Pick(sd, path \o <<9>>, prs) IN [op |-> "fix", h |-> h, i |-> ab[1], j |-> ab[2], axis |-> axis]
         [] nm = "fix0" -> IF ~full \/ Cardinality(FixPairs(o, axis)) # n * (n - 1) THEN fb ELSE [op |-> "fix0", h |-> h, axis |-> axis]
         [] nm = "fixr" -> IF ~full \/ n < 3 \/ IM = 0 THEN fb
                           ELSE LET ab == SubSeq(RndPerm(sd, path \o <<9>>, n), 1, 2)
                                    ax == 1 + Rnd(sd, path \o <<10>>, 3)
                                IN IF RealFixDefined(M, IM, o.legs, ab[1], ab[2], ax) THEN [op |-> "fixr", h |-> h, i |-> ab[1], j |-> ab[2], axis |-> ax] ELSE fb
         [] nm = "rand" -> IF n < 3 THEN fb ELSE [op |-> "rand", h |-> h, real |-> Mpc /\ Rnd(sd, path \o <<13>>, 2) = 0]
         [] nm = "rand1" -> [op |-> "rand1", h |-> h, i |-> i]
         [] nm = "twist" -> IF ~full \/ n < 4 \/ IM = 0 THEN fb ELSE [op |-> "twist", h |-> h]
         [] nm = "eval" -> IF n < 3 \/ n > 9 THEN fb
                           ELSE LET ep == IF Prof = "C05" THEN <<5000, Rnd(sd, path \o <<13>>, 2)>> ELSE path                   \* the same few strings again and again
                                    e0 == IF full THEN RndExp(sd, ep \o <<9>>, n, <<>>, Rnd(sd, ep \o <<10>>, 2)) ELSE RndMand(sd, ep \o <<9>>, n)
                                    e1 == IF n < 4 THEN RndMand(sd, ep \o <<9>>, n) ELSE e0
                                    mass == <<"mass", Pick(sd, ep \o <<12>>, o.ms)[1]>>
                                    e == IF o.ms # <<>> /\ Rnd(sd, ep \o <<11>>, 2) = 0 THEN (IF Prof = "C05" THEN <<"mul", mass, e1>> ELSE mass) ELSE e1
                                IN [op |-> "eval", h |-> h, ast |-> e, toks |-> Toks(PlainStyle, e)]
         [] nm \in {"mcc", "osc", "m2", "totmom", "show"} -> [op |-> nm, h |-> h]
         [] nm = "pcc" -> IF ~full \/ n < 4 THEN fb
                          ELSE LET c == Rnd(sd, path \o <<9>>, 6)
                                   as == [k \in 1..c |-> RndRelAtom(sd, path \o <<10, k>>, n)]
                               IN [op |-> "pcc", h |-> h, asts |-> as, toks |-> [k \in 1..c |-> Toks(PlainStyle, as[k])], all |-> TwoBr(n),
                                   alltoks |-> [k \in 1..Len(TwoBr(n)) |-> Toks(PlainStyle, TwoBr(n)[k])]]
         [] nm \in {"eq", "hash"} -> [op |-> nm, h |-> h, g |-> Pick(sd, path \o <<9>>, pts)]
         [] nm = "setref" -> [op |-> "setref", h |-> h, leg |-> RndLegD(sd, path \o <<9>>)]
         [] nm = "polar" ->
               IF ~full \/ o.ref = <<>> THEN [op |-> "setref", h |-> h, leg |-> RndLegD(sd, path \o <<9>>)]
               ELSE LET hel == [k \in 1..n |-> Pick(sd, path \o <<10, k>>, <<"+", "-">>)]
                        j == 1 + Rnd(sd, path \o <<11>>, n)
                        what == Pick(sd, path \o <<12>>, IF IM > 0 /\ Mpc THEN <<"ee", "ep", "pe", "ep">> ELSE <<"ee">>)
                        a == IF what = "pe" THEN j ELSE i
                    IN IF PolDefined(M, o.legs[a], o.ref[1], hel[a]) /\ (what = "ee" => PolDefined(M, o.legs[j], o.ref[1], hel[j]))
                       THEN [op |-> "polar", h |-> h, i |-> i, j |-> j, hel |-> hel, what |-> what, note |-> [k \in 1..n |-> Rnd(sd, path \o <<13, k>>, 2)],
                             form |-> Pick(sd, path \o <<14>>, <<"str", "list", "tuple">>)]
                       ELSE fb
         [] nm = "ldot" -> [op |-> "ldot", h |-> h, i |-> i, j |-> 1 + Rnd(sd, path \o <<9>>, n)]
         [] nm = "arith" -> LET t == IF Rnd(sd, path \o <<14>>, 3) = 0 THEN (LET u == Neutral(sd, path \o <<9>>, s) IN IF SpinRoot(s, u) THEN <<"neg", u>> ELSE u) ELSE RndTree(sd, path \o <<9>>, s, 1 + Rnd(sd, path \o <<10>>, 3))
                            IN IF LinearOK(t) /\ ~SpinRoot(s, t) THEN [op |-> "arith", g |-> g, tree |-> t, used |-> SetSeq(Used(t))] ELSE fb
         [] nm = "compl" -> [op |-> "compl", h |-> h, labs |-> RndLabs(sd, path \o <<9>>, n, 1 + Rnd(sd, path \o <<10>>, n)), kind |-> Pick(sd, path \o <<11>>, <<"int", "str">>)]
         [] nm = "nol" -> IF n < 4 THEN fb ELSE [op |-> "nol", h |-> h, ijk |-> RndIJK(sd, path \o <<9>>, n)]
         [] nm = "conv" -> [op |-> "conv", name |-> Pick(sd, path \o <<9>>, <<"symmetric", "asymmetric">>)]
         [] nm = "setm" -> [op |-> "setm", h |-> h, mass |-> RndNewMass(sd, path \o <<9>>, n, 1 + Rnd(sd, path \o <<10>>, 4))]

----------------------------------------------------------------------------
(* The model's own execution.  Unconstrained choices are resolved by seed.   *)
Split(m, P) == IF Mass2(m, P) = 0 /\ IsUnit(m, P[2][2])
               THEN [r |-> << <<P[2][2]>>, <<Neg(m, P[2][1])>> >>, l |-> << <<1, Neg(m, Quo(m, P[1][2], P[2][2]))>> >>, P |-> P, sp |-> "none"]
               ELSE [r |-> <<>>, l |-> <<>>, P |-> P, sp |-> "none"]
Resolve(leg) == IF leg.r = Free \/ leg.l = Free THEN [Split(M, leg.P) EXCEPT !.sp = leg.sp] ELSE leg
ResLegs(legs) == [k \in 1..Len(legs) |-> Resolve(legs[k])]
FreshLegs(sd, path, n) == LET d == ConsData(sd, path, n) IN [k \in 1..n |-> SLeg(M, d[k][1], d[k][2])]
FromData(d) == [k \in 1..Len(d) |-> SLeg(M, d[k][1], d[k][2])]
MkObj(legs, ms) == [kind |-> "Ps", legs |-> legs, ms |-> ms, ref |-> <<>>, fld |-> ""]
ParSpin(old, new) == new            \* spin legs under parity: r, l are resolved to absent in the model

ModelStep(sd, path, s, op) ==
    CASE op.op = "make" -> [s EXCEPT ![op.h] = MkObj(FromData(op.legs), op.ms)]
      [] op.op = "makep" -> [s EXCEPT ![op.h] = MkObj([k \in 1..Len(op.vals) |-> Split(M, IF op.shape = "p" THEN Slash(M, IM, op.vals[k]) ELSE op.vals[k])], <<>>)]
      [] op.op = "new" -> [s EXCEPT ![op.h] = MkObj(FreshLegs(sd, path, op.n), [k \in 1..Len(op.names) |-> <<op.names[k], "v", <<RndM(sd, path \o <<k>>)>>>>])]
      [] op.op \in {"copy", "deepcopy", "pickle"} -> [s EXCEPT ![op.g] = s[op.h]]
      [] op.op = "image" -> [s EXCEPT ![op.g] = [s[op.h] EXCEPT !.legs = ResLegs(ImageLegs(M, s[op.h].legs, op.perm, op.par))]]
      [] op.op = "afs" -> [s EXCEPT ![op.h].legs = ResLegs(ImageLegs(M, s[op.h].legs, IdPerm(Len(s[op.h].legs)), TRUE))]
      [] op.op = "cluster" -> [s EXCEPT ![op.g] = MkObj(ResLegs(ClusterLegs(M, s[op.h].legs, op.corners, op.spins)),
                                                        [k \in 1..Len(s[op.h].ms) |-> ClusterMass(op.corners, s[op.h].ms[k])])]
      [] op.op \in {"set", "lset"} -> [s EXCEPT ![op.h].legs[op.i] = Resolve(SetRep(M, IM, s[op.h].legs[op.i], op.rep, op.val))]
      [] op.op = "poke" -> [s EXCEPT ![op.h].legs[op.i] = Resolve(SetRep(M, IM, s[op.h].legs[op.i], op.rep, Poked(s[op.h].legs[op.i], op)))]
      [] op.op = "seti" -> IF op.i \in 1..Len(s[op.h].legs) THEN [s EXCEPT ![op.h].legs[op.i] = SLeg(M, op.leg[1], op.leg[2])] ELSE s
      [] op.op = "ins" -> IF op.i \in 1..Len(s[op.h].legs) THEN [s EXCEPT ![op.h].legs = InsertAt(s[op.h].legs, op.i, SLeg(M, op.leg[1], op.leg[2]))] ELSE s
      [] op.op = "del" -> IF op.i \in 1..Len(s[op.h].legs) THEN [s EXCEPT ![op.h].legs = Without(s[op.h].legs, op.i)] ELSE s
      [] op.op = "fix" -> [s EXCEPT ![op.h].legs = FixLegs(M, s[op.h].legs, op.i, op.j, op.axis)]
      [] op.op = "fix0" -> LET n == Len(s[op.h].legs) IN [s EXCEPT ![op.h].legs = FixLegs(M, s[op.h].legs, 1, n, op.axis)]
      [] op.op = "fixr" -> LET legs == s[op.h].legs
                               PA == Slash(M, IM, RealFixMomA(M, IM, legs, op.i, op.j, op.axis))
                               K == SumP(M, legs, Others(Len(legs), op.i, op.j))
                           IN [s EXCEPT ![op.h].legs = [legs EXCEPT ![op.i] = Split(M, PA), ![op.j] = Split(M, MScale(M, M - 1, MAdd(M, PA, K)))]]
      [] op.op \in {"rand", "twist"} -> [s EXCEPT ![op.h].legs = FreshLegs(sd, path, Len(s[op.h].legs))]
      [] op.op = "rand1" -> [s EXCEPT ![op.h].legs[op.i] = SLeg(M, RndCol(sd, path), RndRow(sd, path))]
      [] op.op = "arith" -> [s EXCEPT ![op.g] = [kind |-> "P", legs |-> <<Split(M, Arith(M, s, op.tree))>>, ms |-> <<>>, ref |-> <<>>, fld |-> ""]]
      [] op.op \in {"setref", "refset"} -> [s EXCEPT ![op.h].ref = <<SLeg(M, op.leg[1], op.leg[2])>>]
      [] op.op = "setm" -> [s EXCEPT ![op.h].ms = SetMass(s[op.h].ms, op.mass)]
      [] OTHER -> s

VARIABLES c, k, store, script, done
vars == <<c, k, store, script, done>>
Sd(j) == (Seed * 7919 + j * 104729) % 60013
Empty == [h \in 1..H |-> NoObj]
FirstOp(sd) == LET n == NMin + Rnd(sd, <<1>>, NMax - NMin + 1)
               IN [op |-> "make", h |-> 1, legs |-> IF Rnd(sd, <<2>>, 3) = 0 THEN RndData(sd, <<3>>, n) ELSE ConsData(sd, <<3>>, n), ms |-> RndMs(sd, <<4>>, n)]
FirstFix(o) == IF FixDefined(M, o.legs, 1, 2, 1) THEN [op |-> "fix", h |-> 1, i |-> 1, j |-> 2, axis |-> 1] ELSE [op |-> "show", h |-> 1]
Init == c = 1 /\ k = 0 /\ store = Empty /\ script = <<>> /\ done = <<>>
Step == /\ c <= Count /\ k < Steps
        /\ LET op == IF k = 0 THEN FirstOp(Sd(c)) ELSE IF k = 1 /\ Small > 0 THEN FirstFix(store[1]) ELSE GenOp(Sd(c), <<100 + k>>, store, script[Len(script)])
           IN /\ script' = Append(script, op)
              /\ store' = ModelStep(Sd(c), <<200 + k>>, store, op)
        /\ k' = k + 1 /\ UNCHANGED <<c, done>>
NextScript == /\ c <= Count /\ k = Steps
              /\ done' = Append(done, script)
              /\ c' = c + 1 /\ k' = 0 /\ store' = Empty /\ script' = <<>>
Write == /\ c = Count + 1
         /\ JsonSerialize(Out, done)
         /\ c' = c + 1 /\ UNCHANGED <<k, store, script, done>>
Next == Step \/ NextScript \/ Write
Spec == Init /\ [][Next]_vars

(* Invariants of the specification itself.                                    *)
LastOp == script[Len(script)]
CoherentStore == \A h \in 1..H : \A j \in 1..Len(store[h].legs) :
                    LET g == store[h].legs[j] IN (HasSp(g) /\ g.sp = "none") => g.P = OuterP(M, g.r, g.l)
RepairWorks == (script # <<>> /\ LastOp.op \in {"fix", "fix0", "fixr"}) =>
                  (MomCons(M, store[LastOp.h].legs) /\ Mass2(M, store[LastOp.h].legs[1].P) = Mass2(M, store[LastOp.h].legs[1].P))
RealRepairMassless == (script # <<>> /\ LastOp.op = "fixr") =>
                  (Mass2(M, store[LastOp.h].legs[LastOp.i].P) = 0 /\ Mass2(M, store[LastOp.h].legs[LastOp.j].P) = 0)
\* polarisations are transverse to their momentum and to the reference vector, and same-helicity contractions vanish
PolLaws == (script # <<>> /\ LastOp.op = "polar") =>
              LET o == store[LastOp.h]  q == o.ref[1]
                  ok == {z \in 1..Len(o.legs) : PolDefined(M, o.legs[z], q, LastOp.hel[z])}
              IN \A a \in ok : /\ PolEP(M, o.legs[a], LastOp.hel[a], o.legs[a].P, q) = 0
                                /\ PolEP(M, o.legs[a], LastOp.hel[a], q.P, q) = 0
                                /\ \A b \in ok : LastOp.hel[a] = LastOp.hel[b] => PolEE(M, o.legs[a], LastOp.hel[a], o.legs[b], LastOp.hel[b], q) = 0
ClusterConserves == (script # <<>> /\ LastOp.op = "cluster") =>
                  TotalMom(M, store[LastOp.h].legs) = TotalMom(M, store[LastOp.g].legs)
RelabelLaw == (script # <<>> /\ LastOp.op = "imgeval") =>
                  LET legs == store[LastOp.h].legs
                      x == EvPt(M, legs, LastOp.ast)
                  IN x # Undef => EvPt(M, Image(M, legs, <<LastOp.perm, LastOp.par>>), Relabel(<<LastOp.perm, LastOp.par>>, LastOp.ast)) = x
=============================================================================
