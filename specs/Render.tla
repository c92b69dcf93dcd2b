------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* Concrete syntax: the token stream of an expression in a given notation. *)
(* Tokens are ASCII names; the harness only concatenates their glyphs.     *)
(*                                                                         *)
(* A style is a record of notation switches, drawn per expression:         *)
(*   ang   "u" unicode brackets, "a" ascii < >                             *)
(*   two   "f" <i|j>, "s" shorthand <ij>                                   *)
(*   par   "y" parentheses around sums inside chains, "n" none             *)
(*   mand  "s_" | "s" | "S_" | "S"                                         *)
(*   mul   "x" explicit *, "i" implicit product                            *)
(*   pow   "c" ^n, "p" **n, "u" unicode superscript                        *)
(*   sp    "y" blanks around + and -, "n" none                             *)
(*   minus "a" ascii, "u" unicode minus                                    *)
(*   dig   "n" normal digits, "b" bold digits for labels                   *)
(*   spin  "s" spin indices _ and ^, "l" letters d and u                    *)
(*   tex   "y" LaTeX fractions, subscripts and superscripts                *)
(***************************************************************************)
EXTENDS Expr

T(x) == <<x>>
LA(st) == IF st.ang = "u" THEN T("LA") ELSE T("<")
RA(st) == IF st.ang = "u" THEN T("RA") ELSE T(">")
Lab(st, i) == IF st.dig = "b" THEN T("b" \o ToString(i)) ELSE T(ToString(i))
Mns(st) == IF st.minus = "u" THEN T("UMINUS") ELSE T("-")

RECURSIVE LabSeq(_, _)
LabSeq(st, t) == IF t = <<>> THEN <<>> ELSE Lab(st, Head(t)) \o LabSeq(st, Tail(t))

RECURSIVE SumToks(_, _, _)
SumToks(st, t, first) ==
    IF t = <<>> THEN <<>>
    ELSE (IF Head(t)[1] < 0 THEN T("-") ELSE IF first THEN <<>> ELSE T("+"))
         \o Lab(st, Head(t)[2]) \o SumToks(st, Tail(t), FALSE)
SumTok(st, t) == IF st.par = "y" /\ Len(t) > 1 THEN T("(") \o SumToks(st, t, TRUE) \o T(")") ELSE SumToks(st, t, TRUE)
SumTokNP(st, t) == SumToks(st, t, TRUE)
RECURSIVE MidToks(_, _)
MidToks(st, mids) == IF Len(mids) = 1 THEN SumTok(st, mids[1]) ELSE SumTok(st, mids[1]) \o T("|") \o MidToks(st, Tail(mids))
RECURSIVE MidToksNP(_, _)
MidToksNP(st, mids) == IF Len(mids) = 1 THEN SumTokNP(st, mids[1]) ELSE SumTokNP(st, mids[1]) \o T("|") \o MidToksNP(st, Tail(mids))
RECURSIVE CornerToks(_, _)
CornerToks(st, cs) == IF Len(cs) = 1 THEN LabSeq(st, cs[1]) ELSE LabSeq(st, cs[1]) \o T("|") \o CornerToks(st, Tail(cs))

Atomic == {"ang", "sqr", "ru", "rd", "ld", "lu", "chain", "spin", "s", "m", "tr", "tr5", "D", "D3", "Om", "Pi", "d5", "mass"}
SpinTok(st, br, has) == IF ~has THEN <<>>
                        ELSE IF br = "A" THEN (IF st.spin = "s" THEN T("_") ELSE T("d")) ELSE (IF st.spin = "s" THEN T("^") ELSE T("u"))

AtomToks(st, e) ==
    LET k == e[1]
    IN CASE k = "ang" -> LA(st) \o Lab(st, e[2]) \o (IF st.two = "s" THEN <<>> ELSE T("|")) \o Lab(st, e[3]) \o RA(st)
         [] k = "sqr" -> T("[") \o Lab(st, e[2]) \o (IF st.two = "s" THEN <<>> ELSE T("|")) \o Lab(st, e[3]) \o T("]")
         [] k = "ru" -> LA(st) \o Lab(st, e[2]) \o T("|")
         [] k = "rd" -> T("|") \o Lab(st, e[2]) \o RA(st)
         [] k = "ld" -> T("[") \o Lab(st, e[2]) \o T("|")
         [] k = "lu" -> T("|") \o Lab(st, e[2]) \o T("]")
         [] k = "chain" ->
               (CASE e[2] = "A" -> LA(st) \o Lab(st, e[3]) [] e[2] = "S" -> T("[") \o Lab(st, e[3]) [] e[2] = "O" -> <<>>)
               \o T("|") \o (IF (e[2] = "O" \/ e[5] = "O") /\ Len(e[4]) > 1 THEN MidToksNP(st, e[4]) ELSE MidToks(st, e[4])) \o T("|")
               \o (CASE e[5] = "A" -> Lab(st, e[6]) \o RA(st) [] e[5] = "S" -> Lab(st, e[6]) \o T("]") [] e[5] = "O" -> <<>>)
         [] k = "spin" ->
               (IF e[2] = "A" THEN LA(st) ELSE T("[")) \o Lab(st, e[3]) \o SpinTok(st, e[2], e[7]) \o T("|")
               \o (IF e[4] = <<>> THEN <<>> ELSE (IF Len(e[4]) > 1 THEN MidToksNP(st, e[4]) ELSE MidToks(st, e[4])) \o T("|"))
               \o Lab(st, e[6]) \o SpinTok(st, e[5], e[8]) \o (IF e[5] = "A" THEN RA(st) ELSE T("]"))
         [] k = "s"   -> IF st.tex = "y" THEN T("s_") \o T("{") \o LabSeq(st, e[2]) \o T("}") ELSE T(st.mand) \o LabSeq(st, e[2])
         [] k = "m"   -> T("m_") \o Lab(st, e[2])
         [] k = "tr"  -> T("tr") \o T("(") \o MidToksNP(st, e[2]) \o T(")")
         [] k = "tr5" -> IF \A i \in 1..4 : Len(e[2][i]) = 1 /\ e[2][i][1][1] > 0 /\ st.two = "s"
                         THEN T("tr5_") \o Lab(st, e[2][1][1][2]) \o Lab(st, e[2][2][1][2]) \o Lab(st, e[2][3][1][2]) \o Lab(st, e[2][4][1][2])
                         ELSE T("tr5") \o T("(") \o MidToksNP(st, e[2]) \o T(")")
         [] k = "D"   -> IF st.tex = "y" THEN T("DELTA_") \o T("{") \o CornerToks(st, e[2]) \o T("}") ELSE T("DELTA_") \o CornerToks(st, e[2])
         [] k = "D3"  -> T("DELTA_") \o LabSeq(st, e[2])
         [] k = "Om"  -> T("OMEGA_") \o LabSeq(st, e[2])
         [] k = "Pi"  -> T("PI_") \o LabSeq(st, e[2])
         [] k = "d5"  -> T("d5")
         [] k = "mass" -> T(e[2])

SupDigit(d) == T("sup" \o ToString(d))
RECURSIVE SupToks(_)
SupToks(n) == IF n < 10 THEN SupDigit(n) ELSE SupToks(n \div 10) \o SupDigit(n % 10)
PowToks(st, n) == IF st.tex = "y" THEN T("^") \o T("{") \o (IF n < 0 THEN T("-") ELSE <<>>) \o T(ToString(IF n < 0 THEN 0 - n ELSE n)) \o T("}")
                  ELSE IF n < 0 THEN (IF st.pow = "p" THEN T("**") ELSE T("^")) \o T("-") \o T(ToString(0 - n))
                  ELSE CASE st.pow = "c" -> T("^") \o T(ToString(n))
                         [] st.pow = "p" -> T("**") \o T(ToString(n))
                         [] st.pow = "u" -> SupToks(n)

Blank(st) == IF st.sp = "y" THEN T(" ") ELSE <<>>

\* binding strength: 1 sum, 2 product, 3 unary minus, 4 power, 5 atom
Prec(st, e) == CASE e[1] \in {"add", "sub"} -> 1
             [] st.tex = "y" /\ e[1] \in {"div", "frac"} -> 5
             [] e[1] \in {"mul", "div", "mat"} -> 2
             [] e[1] = "neg" -> 1                       \* always protected unless leading
             [] e[1] = "frac" -> 2
             [] e[1] = "pow" -> 4
             [] e[1] = "num" -> IF e[2] < 0 THEN 1 ELSE 5
             [] OTHER -> 5
RECURSIVE Toks(_, _)
Paren(st, e, lvl) == IF Prec(st, e) < lvl THEN T("(") \o Toks(st, e) \o T(")") ELSE Toks(st, e)
IsWord(tok) == tok \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
\* Juxtaposition: the left factor may end in a number, a power or anything bracketed;
\* the right factor must start with something that is not a bare number.
RECURSIVE StartsNum(_, _)
StartsNum(st, e) == CASE st.tex = "y" /\ e[1] \in {"div", "frac"} -> FALSE
                  [] e[1] \in {"num", "frac"} -> TRUE
                  [] e[1] \in {"mul", "div", "mat", "pow"} -> StartsNum(st, e[2])
                  [] OTHER -> FALSE
RECURSIVE EndsPlain(_, _)
EndsPlain(st, e) == CASE st.tex = "y" /\ e[1] \in {"div", "frac"} -> TRUE
                  [] e[1] \in {"div", "mat"} -> FALSE
                  [] e[1] = "mul" -> EndsPlain(st, e[3])
                  [] OTHER -> TRUE
RECURSIVE EndsMass(_)
EndsMass(e) == CASE e[1] = "mass" -> TRUE [] e[1] \in {"mul", "div", "mat"} -> EndsMass(e[3]) [] OTHER -> FALSE
\* a mass name must not run into a following name: m_t followed by tr(...) has no unique reading
RECURSIVE StartsName(_, _)
StartsName(st, e) == CASE st.tex = "y" /\ e[1] \in {"div", "frac"} -> FALSE
                  [] e[1] \in {"mass", "m", "s", "tr", "tr5", "D", "D3", "Om", "Pi", "d5"} -> TRUE
                  [] e[1] \in {"mul", "div", "mat", "pow"} -> StartsName(st, e[2]) [] OTHER -> FALSE
CanJuxt(st, x, y) == ~StartsNum(st, y) /\ EndsPlain(st, x) /\ ~(EndsMass(x) /\ StartsName(st, y))

Toks(st, e) ==
    LET k == e[1]
    IN CASE k \in Atomic -> AtomToks(st, e)
         [] k = "num" -> IF e[2] < 0 THEN Mns(st) \o T(ToString(0 - e[2])) ELSE T(ToString(e[2]))
         [] k = "frac" -> IF st.tex = "y" THEN T("FRAC{") \o T(ToString(e[2])) \o T("}{") \o T(ToString(e[3])) \o T("}") ELSE T(ToString(e[2])) \o T("/") \o T(ToString(e[3]))
         [] k = "add" -> Paren(st, e[2], 1) \o Blank(st) \o T("+") \o Blank(st) \o Paren(st, e[3], 2)
         [] k = "sub" -> Paren(st, e[2], 1) \o Blank(st) \o Mns(st) \o Blank(st) \o Paren(st, e[3], 2)
         [] k = "neg" -> Mns(st) \o Paren(st, e[2], 2)
         [] k = "mul" -> Paren(st, e[2], 2) \o (IF st.mul = "i" /\ CanJuxt(st, e[2], e[3]) THEN <<>> ELSE T("*")) \o Paren(st, e[3], 3)
         [] k = "div" -> IF st.tex = "y" THEN T("FRAC{") \o Toks(st, e[2]) \o T("}{") \o Toks(st, e[3]) \o T("}") ELSE Paren(st, e[2], 2) \o T("/") \o Paren(st, e[3], 4)
         [] k = "mat" -> Paren(st, e[2], 3) \o T("@") \o Paren(st, e[3], 3)
         [] k = "pow" -> (IF e[2][1] \in {"div", "frac"} THEN T("(") \o Toks(st, e[2]) \o T(")") ELSE Paren(st, e[2], 5)) \o PowToks(st, e[3])

Styles == [ang : {"u", "a"}, two : {"f", "s"}, par : {"y", "n"}, mand : {"s_", "s", "S_", "S"}, mul : {"x", "i"},
           pow : {"c", "p", "u"}, sp : {"y", "n"}, minus : {"a", "u"}, dig : {"n", "b"}, spin : {"s", "l"}, tex : {"n", "y"}]
RndStyle(seed, path) ==
    [ang |-> Pick(seed, path \o <<1>>, <<"u", "a">>), two |-> Pick(seed, path \o <<2>>, <<"f", "s">>),
     par |-> Pick(seed, path \o <<3>>, <<"y", "n">>), mand |-> Pick(seed, path \o <<4>>, <<"s_", "s", "S_", "S">>),
     mul |-> Pick(seed, path \o <<5>>, <<"x", "i", "i">>), pow |-> Pick(seed, path \o <<6>>, <<"c", "p", "u">>),
     sp |-> Pick(seed, path \o <<7>>, <<"y", "n">>), minus |-> Pick(seed, path \o <<8>>, <<"a", "u">>),
     dig |-> Pick(seed, path \o <<9>>, <<"n", "n", "n", "b">>), spin |-> Pick(seed, path \o <<12>>, <<"s", "l">>), tex |-> Pick(seed, path \o <<11>>, <<"n", "n", "n", "y">>)]
PlainStyle == [ang |-> "u", two |-> "f", par |-> "y", mand |-> "s_", mul |-> "x", pow |-> "c", sp |-> "n", minus |-> "a", dig |-> "n", spin |-> "s", tex |-> "n"]
=============================================================================
