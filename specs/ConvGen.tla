------------------------------ MODULE ConvGen ------------------------------
(***************************************************************************)
(* Histories of changes of the number field of one point.  The rings are   *)
(*   "Q" rationals, "G" Gaussian rationals, "F" integers modulo 46337,     *)
(*   "Z" 211-adic numbers (seen modulo 211^2), "f" integers modulo 211,    *)
(*   "e" residues of a 211-adic point kept in the p-adic container.        *)
(* The model only tracks the ring; Conv.tla says what a step must do.      *)
(***************************************************************************)
EXTENDS ExprGen, Json, IOUtils

EnvInt(name, dflt) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE dflt
Seed  == EnvInt("GSEED", 1)
Count == EnvInt("GCOUNT", 50)
Out   == IOEnv["GOUT"]
SubSeed(k) == (Seed * 7919 + k * 104729) % 60013

To(r) == CASE r = "Q" -> <<"F", "F", "Z", "Z", "f", "Q">> [] r = "G" -> <<"F">> [] r = "Z" -> <<"f", "f", "e", "e", "Z">>
           [] r = "F" -> <<"F">> [] r = "f" -> <<"f">> [] r = "e" -> <<"Z">>
Moves(r) == (CASE r \in {"Q", "G"} -> <<"to", "to", "to", "eval", "sym", "image">>
               [] r = "Z" -> <<"to", "to", "eval", "eval", "sym", "back", "image">>
               [] r = "e" -> <<"to", "eval", "eval">>
               [] OTHER -> <<"to", "eval", "eval", "sym", "sym", "back", "image">>)
\* families whose notation separates labels, for points of ten and more particles
WideKinds == {"ang", "sqr", "ru", "rd", "ld", "lu", "chain", "tr", "tr5"}
RECURSIVE Atom0(_, _, _, _)
Atom0(sd, path, n, t) == LET e == RndAtom(sd, path \o <<t>>, n, Upto(n))
                         IN IF e[1] \notin {"m", "d5"} /\ (n > 9 => e[1] \in WideKinds) /\ (e[1] = "chain" => ChainOK(e[2], Len(e[4]), e[5])) THEN e ELSE Atom0(sd, path, n, t + 1)
Expr0(sd, path, n, ms) == IF n > 9 \/ Rnd(sd, path \o <<1>>, 2) = 0 THEN Atom0(sd, path \o <<2>>, n, 1) ELSE RndExp(sd, path \o <<3>>, n, ms, 1 + Rnd(sd, path \o <<4>>, 2))
Step(sd, path, n, r, ms) ==
    LET op == Pick(sd, path \o <<1>>, IF n > 9 THEN SelectSeq(Moves(r), LAMBDA x : x # "image") ELSE Moves(r))
        e == Expr0(sd, path \o <<2>>, n, IF op = "sym" THEN <<>> ELSE ms)
        \* an expression whose symbols would blow up is left to "eval"
        e1 == IF op = "sym" \/ r = "G" THEN Atom0(sd, path \o <<3>>, n, 1) ELSE e
        st == [RndStyle(sd, path \o <<4>>) EXCEPT !.two = "f", !.tex = "n"]
    IN [op |-> op, ring |-> IF op = "to" THEN Pick(sd, path \o <<5>>, To(r)) ELSE r,
        ast |-> IF op \in {"eval", "sym"} THEN e1 ELSE <<>>, toks |-> IF op \in {"eval", "sym"} THEN Toks(st, e1) ELSE <<>>,
        perm |-> IF op = "image" THEN Shuffle(sd, path \o <<6>>, Upto(n)) ELSE <<>>, par |-> Rnd(sd, path \o <<7>>, 2) = 0,
        mask |-> IF op = "sym" /\ r \notin {"Z", "G"} /\ Rnd(sd, path \o <<8>>, 2) = 0 THEN [j \in 1..(4 * n) |-> Rnd(sd, path \o <<9, j>>, 2)] ELSE [j \in 1..(4 * n) |-> 0]]
RECURSIVE Steps(_, _, _, _, _)
Steps(sd, n, r, ms, k) == IF k = 0 THEN <<>> ELSE LET s == Step(sd, <<40, k>>, n, r, ms) IN <<s>> \o Steps(sd, n, s.ring, ms, k - 1)
Case(k) ==
    LET sd == SubSeed(k)
        n == Pick(sd, <<1>>, <<4, 4, 5, 5, 6, 6, 7, 4, 4, 5, 5, 6, 6, 7, 4, 5, 6, 10 + (k % 3)>>)
        src == Pick(sd, <<2>>, <<"Q", "Q", "Q", "G">>)
        ms == IF Rnd(sd, <<3>>, 3) = 0 THEN <<MassNames[1]>> ELSE <<>>
    IN [id |-> k, n |-> n, src |-> src, seed |-> SubSeed(k), mass |-> [j \in 1..Len(ms) |-> <<ms[j], 1 + Rnd(sd, <<4, j>>, 90), 1 + Rnd(sd, <<5, j>>, 90)>>],
        steps |-> Steps(sd, n, src, ms, 6)]

VARIABLES k, cases
vars == <<k, cases>>
Init == k = 0 /\ cases = <<>>
Next == \/ k < Count /\ k' = k + 1 /\ cases' = Append(cases, Case(k + 1))
        \/ k = Count /\ JsonSerialize(Out, cases) /\ k' = k + 1 /\ cases' = <<>>
Spec == Init /\ [][Next]_vars
=============================================================================
