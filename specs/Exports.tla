------------------------------- MODULE Exports ------------------------------
(***************************************************************************)
(* Exports of phase-space points to Mathematica: texts and saved files.    *)
(*                                                                         *)
(* The state is the working directory (file name -> what the file says)    *)
(* and the points made so far.  Numbers are exact decimals: a real number *)
(* is a sequence of terms <<v, x>>, meaning the sum of v 10^x, with v not  *)
(* divisible by ten; a complex number is a pair of them.  A point is a     *)
(* sequence of legs [r, l, a, b]: r and l are pairs of components          *)
(* <<re x, im x, re y, im y>>, meaning x + y 10^-40 in units of 10^a and   *)
(* 10^b, so that a text with too few digits is noticed.                    *)
(***************************************************************************)
EXTENDS Zm, Json, IOUtils, SequencesExt, FiniteSetsExt

EnvInt(name, dflt) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE dflt
Seed  == EnvInt("GSEED", 1)
Count == EnvInt("GCOUNT", 5)
Steps == EnvInt("GSTEPS", 10)

\* exact decimals ----------------------------------------------------------
\* a component is x + y 10^-40 in some unit, with Gaussian integers x and y: g = <<re x, im x, re y, im y>>
Fine == 40
RECURSIVE Canon(_, _)
Canon(v, x) == IF v = 0 THEN <<>> ELSE IF v % 10 = 0 THEN Canon(v \div 10, x + 1) ELSE << <<v, x>> >>
\* levels: a sequence of Gaussian integers, in units of 10^x, 10^(x-40), ..
RECURSIVE Terms(_, _, _)
Terms(lv, c, x) == IF lv = <<>> THEN <<>> ELSE Canon(lv[1][c], x) \o Terms(Tail(lv), c, x - Fine)
Num(lv, x) == <<Terms(lv, 1, x), Terms(lv, 2, x)>>
Lead(z) == [c \in {1, 2} |-> IF z[c] = <<>> THEN <<>> ELSE <<z[c][1]>>]
GMul(g, h) == <<g[1] * h[1] - g[2] * h[2], g[1] * h[2] + g[2] * h[1]>>
GAdd(g, h) == <<g[1] + h[1], g[2] + h[2]>>
GSub(g, h) == <<g[1] - h[1], g[2] - h[2]>>
GI(g) == <<0 - g[2], g[1]>>
Levels(g) == << <<g[1], g[2]>>, <<g[3], g[4]>> >>
LMul(g, h) == LET a == Levels(g) b == Levels(h)
              IN <<GMul(a[1], b[1]), GAdd(GMul(a[1], b[2]), GMul(a[2], b[1])), GMul(a[2], b[2])>>
LAdd(p, q) == [k \in 1..3 |-> GAdd(p[k], q[k])]
LSub(p, q) == [k \in 1..3 |-> GSub(p[k], q[k])]
LI(p) == [k \in 1..3 |-> GI(p[k])]
Half(p, x) == Num([k \in 1..3 |-> <<5 * p[k][1], 5 * p[k][2]>>], x - 1)

\* what the texts say ------------------------------------------------------
\* four-momentum of the momentum |i>[i|, contravariant components
FourMomentum(g) ==
    LET q(i1, j1) == LMul(g.r[i1], g.l[j1])
        x == g.a + g.b
    IN <<Half(LAdd(q(1, 1), q(2, 2)), x), Half(LAdd(q(1, 2), q(2, 1)), x), Half(LI(LSub(q(1, 2), q(2, 1))), x), Half(LSub(q(1, 1), q(2, 2)), x)>>
SpinorsOf(g) == <<Num(Levels(g.r[1]), g.a), Num(Levels(g.r[2]), g.a), Num(Levels(g.l[1]), g.b), Num(Levels(g.l[2]), g.b)>>
MomText(pt) == [k \in 1..Len(pt) |-> <<k>> \o FourMomentum(pt[k])]
SpinText(pt) == [k \in 1..Len(pt) |-> <<k>> \o SpinorsOf(pt[k])]
\* the text that gives spinors in double precision
ShortText(pt) == [k \in 1..Len(pt) |-> <<k>> \o [c \in 1..4 |-> Lead(SpinorsOf(pt[k])[c])]]

\* the working directory: name -> [inv, first, text]; which names are used is left open -------
\* saving writes exactly one file: a new one, or one that holds a later point of the same invariant; the first one stays
NoFiles == [x \in {} |-> <<>>]
HasFirst(d, v) == \E x \in DOMAIN d : d[x].inv = v /\ d[x].first
MayWrite(d, v, f) == IF f \in DOMAIN d THEN d[f].inv = v /\ ~d[f].first ELSE TRUE
Write(d, v, f, txt) == (f :> [inv |-> v, first |-> ~HasFirst(d, v), text |-> txt]) @@ d

\* generation --------------------------------------------------------------
Invs == << <<>>, <<"LA", "1", "|", "2", "RA">>, <<"[", "1", "|", "2", "]">>, <<"s_", "1", "2", "3">>, <<"LA", "1", "|", "(", "2", "+", "3", ")", "|", "4", "]">> >>
GInt(sd, p) == <<Rnd(sd, p \o <<1>>, 199) - 99, IF Rnd(sd, p \o <<3>>, 4) = 0 THEN 0 ELSE Rnd(sd, p \o <<2>>, 199) - 99,
                 Rnd(sd, p \o <<4>>, 199) - 99, IF Rnd(sd, p \o <<5>>, 4) = 0 THEN 0 ELSE Rnd(sd, p \o <<6>>, 199) - 99>>
Units == <<0, 0, 0, 0 - 3, 4, 0 - 130, 0 - 101, 0 - 7>>
RndLeg(sd, p) == [r |-> <<GInt(sd, p \o <<1>>), GInt(sd, p \o <<2>>)>>, l |-> <<GInt(sd, p \o <<3>>), GInt(sd, p \o <<4>>)>>,
                  a |-> Pick(sd, p \o <<5>>, Units), b |-> Pick(sd, p \o <<6>>, Units)]
NPts == 3
Points(sd) == [k \in 1..NPts |-> [j \in 1..(1 + Rnd(sd, <<k>>, IF k = 1 THEN 12 ELSE 6)) |-> RndLeg(sd, <<k, j>>)]]
GenStep(sd, j) == LET o == Pick(sd, <<100, j, 1>>, <<"save", "save", "save", "mom", "spin">>)
                  IN [op |-> o, p |-> 1 + Rnd(sd, <<100, j, 2>>, NPts), inv |-> IF o = "save" THEN Pick(sd, <<100, j, 3>>, Invs) ELSE <<>>]
GenScript(q) == LET sd == (Seed * 7919 + q * 104729) % 60013 IN [pts |-> Points(sd), steps |-> [j \in 1..Steps |-> GenStep(sd, j)]]

VARIABLES i, fs, bad
vars == <<i, fs, bad>>
GenInit == i = 0 /\ fs = NoFiles /\ bad = <<>>
GenNext == i = 0 /\ i' = 1 /\ JsonSerialize(IOEnv["GOUT"], [q \in 1..Count |-> GenScript(q)]) /\ UNCHANGED <<fs, bad>>
GenSpec == GenInit /\ [][GenNext]_vars

\* the recording of one script ----------------------------------------------
\* step: [op, p, inv, st, text (mom, spin), files (the directory afterwards: sequence of [name, text])]
Tr == JsonDeserialize(IOEnv["TRACE"])
Named(files) == {files[k].name : k \in 1..Len(files)}
TextOf(files, f) == files[CHOOSE k \in 1..Len(files) : files[k].name = f].text
\* the files a recorded directory has in addition to, or with another text than, the model's
Differs(d, files) == {f \in Named(files) : f \notin DOMAIN d \/ d[f].text # TextOf(files, f)}
Kept(d, files) == DOMAIN d \subseteq Named(files)
\* the file a save may have written
Written(d, v, files, txt) ==
    LET c == {f \in Named(files) : MayWrite(d, v, f) /\ TextOf(files, f) = txt /\ Differs(d, files) \subseteq {f}}
        new == {f \in c : f \notin DOMAIN d}
    IN IF new # {} THEN new ELSE c
Clauses(s, pts) ==
    LET pt == pts[s.p]
        txt == SpinText(pt)
    IN (IF s.st # "ok" THEN {"C23:the export failed or is not readable"} ELSE {})
       \cup (IF s.st = "ok" /\ s.op = "mom" /\ s.text # MomText(pt) THEN {"C23:the exported four-momenta are not those of the point"} ELSE {})
       \cup (IF s.st = "ok" /\ s.op = "spin" /\ s.text # ShortText(pt) THEN {"C23:the exported spinors are not those of the point"} ELSE {})
       \cup (IF s.st = "ok" /\ ~Kept(fs, s.files) THEN {"C23:a saved file is gone"} ELSE {})
       \cup (IF s.st = "ok" /\ s.op # "save" /\ Differs(fs, s.files) # {} THEN {"C23:files written without a request"} ELSE {})
       \cup (IF s.st = "ok" /\ s.op = "save" /\ Written(fs, s.inv, s.files, txt) = {} THEN {"C23:no file with the point, or another file overwritten"} ELSE {})
       \cup (IF s.st = "ok" /\ ~s.same THEN {"C23:exporting changed the point"} ELSE {})
\* flattened: a step with op "begin" starts a script
TrInit == i = 1 /\ fs = NoFiles /\ bad = <<>>
TrNext == \/ /\ i <= Len(Tr)
             /\ LET s == Tr[i]
                IN IF s.op = "begin" THEN fs' = NoFiles /\ bad' = bad
                   ELSE LET v == Clauses(s, s.pts)
                        IN /\ bad' = IF v = {} THEN bad ELSE Append(bad, <<i, SetToSeq(v)>>)
                           /\ fs' = IF s.op # "save" \/ s.st # "ok" THEN fs
                                    ELSE LET w == Written(fs, s.inv, s.files, SpinText(s.pts[s.p]))
                                         IN IF w = {} THEN fs ELSE Write(fs, s.inv, CHOOSE f \in w : TRUE, SpinText(s.pts[s.p]))
             /\ i' = i + 1
          \/ /\ i = Len(Tr) + 1 /\ JsonSerialize(IOEnv["VERDICT"], bad) /\ i' = i + 1 /\ UNCHANGED <<fs, bad>>
TraceSpec == TrInit /\ [][TrNext]_vars

----------------------------------------------------------------------------
(* The directory as a model: every history of saves of two texts under two *)
(* invariants.  bad records <<name, text>> of every save, in order.        *)
MInit == i = 0 /\ fs = NoFiles /\ bad = <<>>
MNext == i < 5 /\ \E v \in {"u", "v"} : \E t \in {1, 2} : \E f \in {"a", "b", "c", "d"} :
            MayWrite(fs, v, f) /\ i' = i + 1 /\ fs' = Write(fs, v, f, t) /\ bad' = Append(bad, <<v, t>>)
ModelSpec == MInit /\ [][MNext]_vars
Of(v) == SelectSeq(bad, LAMBDA x : x[1] = v)
\* the first point saved under an invariant stays, and the last one can always be read
Readable == \A v \in {"u", "v"} :
              LET h == Of(v)
              IN /\ h # <<>> => \E f \in DOMAIN fs : fs[f].inv = v /\ fs[f].first /\ fs[f].text = h[1][2]
                 /\ h # <<>> => \E f \in DOMAIN fs : fs[f].inv = v /\ fs[f].text = h[Len(h)][2]
                 /\ h = <<>> => \A f \in DOMAIN fs : fs[f].inv # v
=============================================================================
