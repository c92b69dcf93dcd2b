-------------------------------- MODULE Conv --------------------------------
(***************************************************************************)
(* Changing the number field of a point commutes with everything else.     *)
(* The state is one abstract point, known through its images in Z/m for    *)
(* the moduli of the rings a history visits: conversion leaves the         *)
(* abstract point alone and only changes the modulus in which the          *)
(* implementation can still be observed.  A history is accepted step by    *)
(* step; every observation is compared with the abstract point.            *)
(***************************************************************************)
EXTENDS Expr, Json, IOUtils

Recs == JsonDeserialize(IOEnv["CIN"])

Mods == <<46337, 44521, 211>>
\* index of the modulus in which a ring is observed (rationals are observed in all of them)
ModsOf(r) == CASE r \in {"Q", "G"} -> {1, 2, 3} [] r = "F" -> {1} [] r = "Z" -> {2, 3} [] r \in {"f", "e"} -> {3}
\* once the upper digits are dropped they stay unknown
After(know, r) == know \cap ModsOf(r)

LegOf(x) == [r |-> x[1], l |-> x[2], P |-> x[3]]
PtOf(ls) == [k \in 1..Len(ls) |-> LegOf(ls[k])]
Moved(pts, perm, par) == [q \in 1..3 |-> IF pts[q] = <<>> THEN <<>> ELSE Image(Mods[q], pts[q], <<perm, par>>)]

\* one step: the observations of record o agree with the abstract point pts in every known modulus
MassEnv(rec, q) == [x \in {rec.mass[j][1] : j \in 1..Len(rec.mass)} |-> LET j == CHOOSE i \in 1..Len(rec.mass) : rec.mass[i][1] = x IN <<"v", rec.mass[j][2][q]>>]
LegsOK(o, pts, know) == \A q \in know : pts[q] = <<>> \/ o.legs[q] = <<>> \/ PtOf(o.legs[q]) = pts[q]
ValOK(rec, o, pts, know, ast) == \A q \in know : pts[q] = <<>> \/ o.val[q] = <<>> \/
    LET v == Ev(Mods[q], [pt |-> pts[q], ms |-> MassEnv(rec, q)], ast) IN v = Undef \/ v = o.val[q]
\* masses are carried along
MassOK(rec, o, know) == \A j \in 1..Len(o.mass) : \A q \in know : o.mass[j][2][q] = <<>> \/ o.mass[j][2][q] = Scal(rec.mass[j][2][q])
PointOK(o, pts, know) == \A q \in know : pts[q] = <<>> \/ (o.legs[q] # <<>> => MomCons(Mods[q], PtOf(o.legs[q])) /\ OnShell(Mods[q], PtOf(o.legs[q])))

\* the history as a behaviour
RECURSIVE Accept(_, _, _, _)
Accept(rec, k, pts, know) ==
    IF k > Len(rec.obs) THEN 0
    ELSE LET s == rec.steps[k]
             o == rec.obs[k]
             pts1 == IF s.op = "image" THEN TLCEval(Moved(pts, s.perm, s.par)) ELSE pts
             know1 == IF s.op = "to" THEN After(know, s.ring) ELSE know
         IN IF o.field /\ MassOK(rec, o, know1) /\ LegsOK(o, pts1, know1) /\ PointOK(o, pts1, know1)
               /\ (s.op \in {"eval", "sym"} => ValOK(rec, o, pts1, know1, s.ast))
            THEN Accept(rec, k + 1, pts1, know1) ELSE k
Fault(rec) == Accept(rec, 1, [q \in 1..3 |-> PtOf(rec.legs[q])], {1, 2, 3})

VARIABLE i
Init == i = 0
Next == i < Len(Recs) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judge == i > 0 => LET f == Fault(Recs[i]) IN f = 0 \/ PrintT(<<"FAULT", f, Recs[i].key>>)
Done == i = Len(Recs) => PrintT(<<"DONE", Len(Recs)>>)
=============================================================================
