------------------------------- MODULE Limits -------------------------------
(***************************************************************************)
(* Points with prescribed values of invariants.  A record is the outcome   *)
(* of one request: either an error was raised, or a point was left behind. *)
(* The point is shown exactly (residues of both spinors and of the slashed *)
(* momentum of every leg) where the field has an image in Z/m, and as the  *)
(* sizes of the numbers that must vanish otherwise.                        *)
(*                                                                         *)
(*   Faithful: no normal return on a point that misses the request.        *)
(*   Served:   requests of the built-in families succeed at some of a few  *)
(*             independent starting points (a single one may be special).  *)
(***************************************************************************)
EXTENDS Expr, Json, IOUtils

Recs == JsonDeserialize(IOEnv["LIN"])

Pt(r) == [k \in 1..Len(r.legs) |-> [r |-> r.legs[k][1], l |-> r.legs[k][2], P |-> r.legs[k][3]]]
Val(m, pt, e) == EvPt(m, pt, e)
\* the target is a value (up to a sign for more than one invariant), or an order of vanishing
\* (points made directly from an ideal may lie deeper than asked when the requests are not independent)
Hit(kind, m, v, t) == IF kind = "ordge" THEN IsScal(v) /\ Valn(31, 3, v[1][1]) >= t ELSE IF kind = "ord" THEN IsScal(v) /\ Valn(31, 3, v[1][1]) = t ELSE v = Scal(t % m) \/ (kind # "one" /\ v = Scal((0 - t) % m))

FaithfulExact(r) ==
    LET pt == Pt(r)
        m == r.m
    IN /\ Len(pt) = r.n
       /\ \A k \in 1..r.n : Coherent(m, pt[k])
       /\ OnShell(m, pt)
       /\ MomCons(m, pt)
       /\ \A j \in 1..Len(r.asts) : Hit(r.kind, m, Val(m, pt, r.asts[j]), r.tgt[j])
FaithfulResidual(r) ==
    /\ \A j \in 1..Len(r.mc) : r.mc[j] <= r.bound
    /\ \A j \in 1..Len(r.os) : r.os[j] <= r.bound
    /\ \A j \in 1..Len(r.asts) : r.minus[j] <= r.bound \/ (r.kind # "one" /\ r.plus[j] <= r.bound)
Faithful(r) == CASE r.how = "exact" -> FaithfulExact(r)
                 [] r.how = "residual" -> FaithfulResidual(r)
                 [] OTHER -> TRUE

----------------------------------------------------------------------------
(* The requests the built-in constructions answer at generic points.        *)
LegsOf(t) == {t[k][2] : k \in 1..Len(t)}
Plain(t) == (\A k \in 1..Len(t) : t[k][1] = 1) /\ Cardinality(LegsOf(t)) = Len(t)
RECURSIVE UnionLegs(_)
UnionLegs(ms) == IF ms = <<>> THEN {} ELSE LegsOf(Head(ms)) \cup UnionLegs(Tail(ms))
SureChain(n, e) ==
    LET inm == UnionLegs(e[4])
    IN /\ \A k \in 1..Len(e[4]) : Plain(e[4][k]) /\ Len(e[4][k]) >= 2
       /\ n - Cardinality(inm \cup {e[3], e[6]}) >= 2
       /\ e[3] \notin inm \/ e[6] \notin inm
       /\ ~(e[3] = e[6] /\ Len(e[4]) = 2 /\ LegsOf(e[4][1]) = LegsOf(e[4][2]))
       /\ Len(e[4]) <= 3
Distinct(s) == Cardinality({s[k] : k \in 1..Len(s)}) = Len(s)
SureOne(n, e) ==
    CASE e[1] \in {"ang", "sqr"} -> n >= 4 /\ e[2] # e[3]
      [] e[1] = "chain" -> SureChain(n, e)
      [] e[1] = "s" -> Distinct(e[2]) /\ Len(e[2]) >= 3 /\ n - Len(e[2]) >= 2 /\ n >= 5
      [] e[1] = "D3" -> LET c == NOL(n, e[2]) IN \A k \in 1..3 : Len(c[k]) >= 2
      [] e[1] = "D" -> Len(e[2]) = 3 /\ \A k \in 1..3 : Len(e[2][k]) >= 2
      [] e[1] \in {"Om", "Pi"} -> n = 6 /\ LET c == NOL(n, e[2]) IN \A k \in 1..3 : Len(c[k]) = 2
      [] e[1] = "tr5" -> n >= 5 /\ (\A k \in 1..4 : Len(e[2][k]) = 1 /\ e[2][k][1][1] = 1) /\ Distinct([k \in 1..4 |-> e[2][k][1][2]])
      [] e[1] = "sub" -> n = 6
      [] OTHER -> FALSE
\* two brackets fixed independently of each other, and pairs with Mandelstams of three or more legs
TwoSet(e) == {e[2], e[3]}
IsTwo(e) == e[1] \in {"ang", "sqr"}
IsC1(e) == e[1] = "chain" /\ Len(e[4]) = 1 /\ e[3] \notin UnionLegs(e[4]) /\ e[6] \notin UnionLegs(e[4])
IsS3(e) == e[1] = "s" /\ Len(e[2]) = 3
Legs(e) == {e[2][k] : k \in 1..Len(e[2])}
ChainLegs(e) == UnionLegs(e[4]) \cup {e[3], e[6]}
SurePair(n, a, b) ==
    IF ~(SureOne(n, a) /\ SureOne(n, b)) THEN FALSE
    ELSE CASE IsTwo(a) /\ IsTwo(b) -> n >= 5 /\ ~(a[1] = b[1] /\ TwoSet(a) = TwoSet(b))
           [] (IsTwo(a) /\ IsS3(b)) \/ (IsS3(a) /\ IsTwo(b)) -> n >= 6
           [] IsS3(a) /\ IsS3(b) -> n >= 6 /\ Legs(a) # Legs(b) /\ Legs(a) # (1..n) \ Legs(b)
           [] (IsTwo(a) /\ IsC1(b)) \/ (IsC1(a) /\ IsTwo(b)) -> n >= 6
           [] (IsTwo(a) /\ b[1] \in {"D", "D3"}) \/ (IsTwo(b) /\ a[1] \in {"D", "D3"}) -> n >= 6
           [] IsS3(a) /\ IsC1(b) -> n >= 7 /\ Legs(a) \cap ChainLegs(b) # {}
           [] IsC1(a) /\ IsS3(b) -> n >= 7 /\ Legs(b) \cap ChainLegs(a) # {}
           [] OTHER -> FALSE
\* constructions that take a square root: over the p-adic numbers it need not exist
NeedsRoot(e) == e[1] \in {"D", "D3", "Om", "Pi"} \/ (e[1] = "chain" /\ e[3] = e[6] /\ Len(e[4]) % 2 = 0)
Sure(r) == IF r.m = 29791 /\ (\E j \in 1..Len(r.asts) : NeedsRoot(r.asts[j])) THEN FALSE
           ELSE IF r.kind = "one" THEN SureOne(r.n, r.asts[1])
           ELSE IF r.kind = "two" THEN SurePair(r.n, r.asts[1], r.asts[2])
           ELSE IF r.kind \in {"var", "ord"} /\ Len(r.asts) = 1 THEN SureOne(r.n, r.asts[1])
           ELSE IF r.kind \in {"var", "ord"} /\ Len(r.asts) = 2 THEN SurePair(r.n, r.asts[1], r.asts[2])
           ELSE FALSE
Served(r) == Sure(r) => r.succeeded

----------------------------------------------------------------------------
VARIABLE i
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Report(r, what) == PrintT(<<"MISS", what, r.key>>)
Judge == i > 0 => LET r == Recs[i] IN (Faithful(r) \/ Report(r, "unfaithful")) /\ (Served(r) \/ Report(r, "unserved"))
Count == i = Len(Recs) => PrintT(<<"SURE", Cardinality({k \in 1..Len(Recs) : Sure(Recs[k])}), Cardinality({k \in 1..Len(Recs) : Recs[k].how \in {"exact", "residual"}})>>)
=============================================================================
