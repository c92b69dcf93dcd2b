-------------------------------- MODULE Invs --------------------------------
(***************************************************************************)
(* What the generated lists of invariants must be.  Entries are abstract   *)
(* expressions (Expr.tla); they are compared by their values on several    *)
(* random phase-space points, up to an overall sign.  The complete         *)
(* families are defined here, from the combinatorics of the legs.          *)
(***************************************************************************)
EXTENDS Expr, Json, IOUtils, SequencesExt, FiniteSetsExt

Rec == JsonDeserialize(IOEnv["TRACE"])
\* Rec.m ; Rec.points : for every multiplicity n a sequence of points (sequence of spinor quadruples)
\* Rec.table : the distinct entries, [n, s : string, e : expression, v : <<value found by the code at the first point>>]
\* Rec.reqs : sequence of [n, hard, r3, r4, f4, fams : <<[name, entries : <<index into the table>>]>>, full, fm4, invN]
M == Rec.m
Pts == [n \in DOMAIN Rec.points |-> TLCEval([k \in 1..Len(Rec.points[n]) |->
          TLCEval([j \in 1..Len(Rec.points[n][k]) |-> LET q == Rec.points[n][k][j] IN TLCEval(Leg(M, q[1], q[2], q[3], q[4]))])])]

Val(n, e) == TLCEval([k \in 1..Len(Pts[n]) |-> EvPt(M, Pts[n][k], e)[1][1]])
Canon(v) == LET nz == {k \in 1..Len(v) : v[k] # 0}
            IN IF nz = {} THEN v
               ELSE IF v[Min(nz)] * 2 > M THEN [k \in 1..Len(v) |-> (M - v[k]) % M] ELSE v
CV(n, e) == TLCEval(Canon(Val(n, e)))
Tab == Rec.table

----------------------------------------------------------------------------
(* Well-formed members of each family.                                      *)
Legs(n, t) == \A k \in 1..Len(t) : t[k] \in 1..n
Distinct(t) == \A a, b \in 1..Len(t) : a # b => t[a] # t[b]
PlainSum(n, t) == /\ Len(t) >= 2 /\ Distinct(t)
                  /\ \A k \in 1..Len(t) : t[k][1] = 1 /\ t[k][2] \in 1..n
Has(t, i) == \E k \in 1..Len(t) : t[k][2] = i
ChainWF(n, e, s, len, t) ==
    /\ e[1] = "chain" /\ e[2] = s /\ e[5] = t /\ Len(e[4]) = len
    /\ e[3] \in 1..n /\ e[6] \in 1..n
    /\ \A k \in 1..len : PlainSum(n, e[4][k])
    /\ ~Has(e[4][1], e[3]) /\ ~Has(e[4][len], e[6])
WF(n, f, e) ==
    CASE f = "2" -> e[1] \in {"ang", "sqr"} /\ e[2] \in 1..n /\ e[3] \in 1..n /\ e[2] # e[3]
      [] f = "3" -> ChainWF(n, e, "A", 1, "S")
      [] f = "4" -> ChainWF(n, e, "A", 2, "A") \/ ChainWF(n, e, "S", 2, "S")
      [] f = "5" -> ChainWF(n, e, "A", 3, "S")
      [] f = "s" -> e[1] = "s" /\ Legs(n, e[2]) /\ Distinct(e[2]) /\ Len(e[2]) >= 3
      [] f = "D" -> \/ e[1] = "D3" /\ Legs(n, e[2]) /\ Distinct(e[2]) /\ Len(e[2]) = 3
                    \/ /\ e[1] = "D" /\ Len(e[2]) = 3
                       /\ \A c \in 1..3 : Legs(n, e[2][c]) /\ Len(e[2][c]) >= 2
                       /\ LET all == e[2][1] \o e[2][2] \o e[2][3] IN Distinct(all) /\ Len(all) = n
      [] f = "O" -> e[1] = "Om" /\ Legs(n, e[2]) /\ Distinct(e[2])
      [] f = "P" -> e[1] = "Pi" /\ Legs(n, e[2]) /\ Distinct(e[2])
      [] f = "tr5" -> e[1] = "tr5" /\ Len(e[2]) = 4 /\ \A k \in 1..4 : Len(e[2][k]) = 1 /\ e[2][k][1][1] = 1 /\ e[2][k][1][2] \in 1..n

----------------------------------------------------------------------------
(* The complete families, by value.                                         *)
SortedLegs(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
SumOf(S) == LET q == SortedLegs(S) IN [k \in 1..Len(q) |-> <<1, q[k]>>]
All2(n) == {<<"ang", a, b>> : a \in 1..n, b \in 1..n} \cup {<<"sqr", a, b>> : a \in 1..n, b \in 1..n}
Full2(n) == {e \in All2(n) : e[2] < e[3] /\ (n = 4 => e[1] = "ang")}
\* one-sum chains that are neither a product of brackets nor the same chain through the complementary sum
Full3(n) == UNION {LET rest == (1..n) \ {a, b}
                   IN {<<"chain", "A", a, <<SumOf(S)>>, "S", b>> :
                         S \in {T \in SUBSET rest : Cardinality(T) >= 2 /\ Cardinality(rest \ T) >= 2}} : a \in 1..n, b \in 1..n}
FullS(n) == {<<"s", SortedLegs(S)>> : S \in {T \in SUBSET (1..n) : Cardinality(T) >= 3 /\ Cardinality(T) <= n - 3}}
Runs(n, i, j) == {k \in 1..n : IF i < j THEN k >= i /\ k < j ELSE k >= i \/ k < j}
CycGrams(n) == {<<"D", <<SortedLegs(Runs(n, t[1], t[2])), SortedLegs(Runs(n, t[2], t[3])), SortedLegs(Runs(n, t[3], t[1]))>> >> :
                  t \in {x \in (1..n) \X (1..n) \X (1..n) :
                           /\ x[1] < x[2] /\ x[2] < x[3]
                           /\ x[2] - x[1] >= 2 /\ x[3] - x[2] >= 2 /\ x[1] + n - x[3] >= 2}}
FullTr5(n) == {<<"tr5", LET q == SortedLegs(S) IN [k \in 1..4 |-> << <<1, q[k]>> >>]>> : S \in {T \in SUBSET (1..(n - 1)) : Cardinality(T) = 4}}
Needed(r, f) ==
    CASE f = "2" -> Full2(r.n)
      [] f = "3" /\ ~r.r3 -> Full3(r.n)
      [] f = "s" -> FullS(r.n)
      [] f = "D" -> CycGrams(r.n)
      [] f = "tr5" -> FullTr5(r.n)
      [] OTHER -> {}
\* families that are given by the above and nothing else
Exact(r, f) == f \in {"2", "s", "tr5"} \/ (f = "3" /\ ~r.r3)

\* everything about one entry of the table, computed once
Entry == [t \in 1..Len(Tab) |-> LET x == Tab[t]
             IN IF x.e = <<"bad">> \/ ~WF(x.n, x.f, x.e) THEN [ok |-> FALSE, val |-> <<>>, cv |-> <<>>]
                ELSE LET v == Val(x.n, x.e) IN [ok |-> TRUE, val |-> v, cv |-> TLCEval(Canon(v))]]
VARIABLES i, bad, ent

----------------------------------------------------------------------------
Parity(e) ==
    CASE e[1] = "ang" -> <<"sqr", e[2], e[3]>>
      [] e[1] = "sqr" -> <<"ang", e[2], e[3]>>
      [] e[1] = "chain" -> <<"chain", SwapAS(e[2]), e[3], e[4], SwapAS(e[5]), e[6]>>
      [] OTHER -> e

FamClauses(r, fam) ==
    LET f  == fam.name
        es == fam.entries
        N  == Len(es)
        badwf == {k \in 1..N : ~ent[es[k]].ok}
    IN IF badwf # {} THEN {<<"C15:not well-formed", Tab[es[Min(badwf)]].s>>}
       ELSE LET set  == TLCEval({ent[es[k]].cv : k \in 1..N})
                wrong == {k \in 1..N : Tab[es[k]].v # <<ent[es[k]].val[1]>>}
                zero == {k \in 1..N : \A j \in 1..Len(ent[es[k]].val) : ent[es[k]].val[j] = 0}
                needed == Needed(r, f)
                missing == {e \in needed : CV(r.n, e) \notin set}
                need == TLCEval({CV(r.n, e) : e \in needed})
                extra == {k \in 1..N : ent[es[k]].cv \notin need}
                par == {k \in 1..N : CV(r.n, Parity(Tab[es[k]].e)) \notin set}
            IN (IF wrong # {} THEN {<<"C15:entry cannot be evaluated, or not to its value", Tab[es[Min(wrong)]].s>>} ELSE {})
               \cup (IF r.n > 3 /\ zero # {} THEN {<<"C15:entry vanishes identically", Tab[es[Min(zero)]].s>>} ELSE {})
               \cup (IF missing # {} THEN {<<"C15:family " \o f \o " incomplete", ToString(CHOOSE e \in missing : TRUE)>>} ELSE {})
               \cup (IF Exact(r, f) /\ extra # {} THEN {<<"C15:family " \o f \o " has an unexpected entry", Tab[es[Min(extra)]].s>>} ELSE {})
               \cup (IF f \in {"2", "3", "4", "5"} /\ r.n > 4 /\ ~(f = "3" /\ r.hard) /\ par # {}
                     THEN {<<"C15:family " \o f \o " not closed under parity", Tab[es[Min(par)]].s>>} ELSE {})

AllEntries(r) == FlattenSeq([k \in 1..Len(r.fams) |-> r.fams[k].entries])
FamStrs(r, S) == UNION {{Tab[r.fams[k].entries[j]].s : j \in 1..Len(r.fams[k].entries)} : k \in {x \in 1..Len(r.fams) : r.fams[x].name \in S}}
Names == {"2", "3", "4", "5", "s", "D", "O", "P", "tr5"}
AsSet(q) == {q[k] : k \in 1..Len(q)}
Rep(q) == Cardinality(AsSet(q)) # Len(q)
ListClauses(r) ==
    LET all == TLCEval(AllEntries(r))
    IN (IF AsSet(r.full) # FamStrs(r, Names) THEN {<<"C15:the combined list is not the union of the families", "">>} ELSE {})
       \cup (IF AsSet(r.fm4) # FamStrs(r, Names \ {"4"}) THEN {<<"C15:the list without four-brackets is not the union of the other families", "">>} ELSE {})
       \cup (IF AsSet(r.invN) # FamStrs(r, {"3", "4", "5"}) THEN {<<"C15:the list of chains is not the union of its families", "">>} ELSE {})
       \cup (IF Rep(r.full) \/ Rep(r.fm4) \/ Rep(r.invN) \/ Rep([k \in 1..Len(all) |-> Tab[all[k]].s]) THEN {<<"C15:an entry repeats", "">>} ELSE {})
       \cup (IF r.n > 3 /\ r.r4 /\ r.f4 /\ ~Rep(all) /\ \A k \in 1..Len(all) : ent[all[k]].ok
             THEN IF Cardinality({ent[all[k]].cv : k \in 1..Len(all)}) = Len(all) THEN {}
                  ELSE LET a == CHOOSE x \in 1..Len(all) : \E y \in (x + 1)..Len(all) : ent[all[x]].cv = ent[all[y]].cv
                           b == CHOOSE y \in (a + 1)..Len(all) : ent[all[a]].cv = ent[all[y]].cv
                       IN {<<"C15:two entries are equal up to sign", Tab[all[a]].s \o "  and  " \o Tab[all[b]].s>>}
             ELSE {})
ReqClauses(r) == ListClauses(r) \cup UNION {FamClauses(r, r.fams[k]) : k \in 1..Len(r.fams)}
\* the same request, repeated in other orders and processes (recorded as lists of strings)
SameClauses(k) == IF Rec.same[k].lists = Rec.same[k].ref THEN {} ELSE {<<"C15:the list depends on earlier requests or on the process", Rec.same[k].what>>}

PointsOK == \A n \in DOMAIN Pts : \A k \in 1..Len(Pts[n]) : MomCons(M, Pts[n][k]) /\ OnShell(M, Pts[n][k])

Init == i = 1 /\ bad = <<>> /\ ent = TLCEval(Entry)
Total == Len(Rec.reqs) + Len(Rec.same)
Next == \/ /\ i <= Total
           /\ LET v == IF i <= Len(Rec.reqs) THEN ReqClauses(Rec.reqs[i]) ELSE SameClauses(i - Len(Rec.reqs))
              IN bad' = IF v = {} THEN bad ELSE Append(bad, <<i, SetToSeq(v)>>)
           /\ i' = i + 1 /\ ent' = ent
        \/ /\ i = Total + 1 /\ JsonSerialize(IOEnv["VERDICT"], [bad |-> bad]) /\ i' = i + 1 /\ bad' = bad /\ ent' = ent
Spec == Init /\ [][Next]_<<i, bad, ent>>
=============================================================================
