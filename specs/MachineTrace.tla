---------------------------- MODULE MachineTrace ----------------------------
(***************************************************************************)
(* Validation of recorded executions against Machine.tla.                  *)
(*                                                                         *)
(* A trace lists steps [op, ret, delta]: the operation, what it returned   *)
(* (or that it raised), and every stored object whose observable state     *)
(* changed.  Each observed leg carries all representations the library     *)
(* exposes: r l ru lu P Pb p pd, the outer products O = |i>[i| and         *)
(* Q = |i]<i| of the exposed spinors, and sp.                              *)
(* The verdict of a step is the set of violated clauses, tagged with the   *)
(* property they belong to; validation then continues from the recorded    *)
(* state, so one trace can expose several independent violations.          *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils, SequencesExt, FiniteSetsExt

Traces == JsonDeserialize(IOEnv["TRACE"])
Out    == IOEnv["VERDICT"]

Abs(g) == [r |-> g.r, l |-> g.l, P |-> g.P, sp |-> g.sp]
AbsLegs(o) == [k \in 1..Len(o.legs) |-> Abs(o.legs[k])]
AbsObj(o) == [o EXCEPT !.legs = AbsLegs(o)]
AbsStore(s) == [h \in DOMAIN s |-> AbsObj(s[h])]

\* ------------------------------------------------------------- coherence
\* i is available: the four-momentum exists in the field
LegClauses(m, im, fld, g) ==
    LET massless == Known(g.P) /\ Mass2(m, g.P) = 0
        plain == g.sp = "none"
    IN  (IF ~Known(g.P) \/ ~Known(g.Pb) THEN {"C02:momentum not expressible"} ELSE
            (IF g.Pb # Flip(m, g.P) THEN {"C02:P and Pbar differ"} ELSE {})
         \cup (IF (g.r = <<>>) # (g.ru = <<>>) \/ (g.l = <<>>) # (g.lu = <<>>) THEN {"C02:spinor without its dual"} ELSE {})
         \cup (IF Known(g.r) /\ g.ru # UpFromDown_r(m, g.r) THEN {"C02:angle bra and ket differ"} ELSE {})
         \cup (IF Known(g.l) /\ g.lu # UpFromDown_l(m, g.l) THEN {"C02:square bra and ket differ"} ELSE {})
         \cup (IF plain /\ (g.r = <<>>) # (g.l = <<>>) THEN {"C02:one chirality without the other"} ELSE {})
         \cup (IF massless /\ plain /\ Known(g.r) /\ MatMul(m, UpFromDown_r(m, g.r), g.Pb) # << <<0, 0>> >> THEN {"C02:angle spinor of another momentum"} ELSE {})
         \cup (IF massless /\ plain /\ Known(g.l) /\ MatMul(m, g.Pb, UpFromDown_l(m, g.l)) # << <<0>>, <<0>> >> THEN {"C02:square spinor of another momentum"} ELSE {})
         \cup (IF ~massless /\ plain /\ Known(g.O) /\ \E ab \in {<<1, 1>>, <<1, 2>>, <<2, 1>>} : g.O[ab[1]][ab[2]] # g.Pb[ab[1]][ab[2]]
               THEN {"C02:spinors of another momentum"} ELSE {})
         \cup (IF massless /\ plain /\ Known(g.O) /\ g.O # g.Pb THEN {"C02:spinors and Pbar differ"} ELSE {})
         \cup (IF massless /\ plain /\ Known(g.Q) /\ g.Q # g.P THEN {"C02:spinors and P differ"} ELSE {})
         \cup (IF massless /\ plain /\ (g.r = <<>> \/ g.l = <<>>) /\ IsUnit(m, g.P[2][2]) THEN {"C02:spinors missing"} ELSE {})
         \cup (IF im > 0 /\ g.p = <<>> THEN {"C02:four-momentum missing"} ELSE {})
         \cup (IF im > 0 /\ g.p # <<>> /\ g.p # FourMom(m, im, g.P) THEN {"C02:four-momentum and P differ"} ELSE {})
         \cup (IF im > 0 /\ g.p # <<>> /\ g.pd # LowerMu(m, g.p) THEN {"C02:four-momentum up and down differ"} ELSE {}))

\* an expected leg against an observed one
LegMatch(tag, e, g) ==
       (IF e.P # Free /\ e.P # g.P THEN {tag \o ":momentum"} ELSE {})
  \cup (IF e.r # Free /\ e.r # g.r THEN {tag \o ":angle spinor"} ELSE {})
  \cup (IF e.l # Free /\ e.l # g.l THEN {tag \o ":square spinor"} ELSE {})
  \cup (IF e.sp # g.sp THEN {tag \o ":spin index"} ELSE {})
LegsMatch(tag, es, gs) == IF Len(es) # Len(gs) THEN {tag \o ":number of particles"}
                          ELSE UNION {LegMatch(tag, es[k], gs[k]) : k \in 1..Len(es)}
SameExcept(tag, a, b, K) ==
    IF Len(a.legs) # Len(b.legs) THEN {tag \o ":number of particles"}
    ELSE (IF \E k \in 1..Len(a.legs) : k \notin K /\ a.legs[k] # b.legs[k] THEN {tag \o ":another particle changed"} ELSE {})
         \cup (IF MsOf(a.ms) # MsOf(b.ms) THEN {tag \o ":masses changed"} ELSE {})
         \cup (IF a.ref # b.ref THEN {tag \o ":reference vector changed"} ELSE {})
         \cup (IF a.fld # b.fld \/ a.kind # b.kind THEN {tag \o ":field changed"} ELSE {})
SameObj(tag, a, b) ==
       (IF a.legs # b.legs THEN {tag \o ":kinematics differ"} ELSE {})
  \cup (IF MsOf(a.ms) # MsOf(b.ms) THEN {tag \o ":masses differ"} ELSE {})
  \cup (IF a.ref # b.ref THEN {tag \o ":reference vector differs"} ELSE {})
  \cup (IF a.fld # b.fld THEN {tag \o ":field differs"} ELSE {})
  \cup (IF a.kind # b.kind THEN {tag \o ":kind differs"} ELSE {})

\* ------------------------------------------------------------- operations
Tag(op) == CASE op.op \in {"make", "makep", "set", "poke", "conv", "comp"} -> "C02"
             [] op.op \in {"fix", "fix0", "fixr"} -> "C03"
             [] op.op = "eval" -> "C05"
             [] op.op = "tofield" -> "C06"
             [] op.op \in {"image", "afs", "imgeval"} -> "C07"
             [] op.op = "cluster" -> "C08"
             [] op.op \in {"copy", "deepcopy", "pickle", "eq", "hash", "show", "setm"} -> "C13"
             [] op.op \in {"mcc", "osc", "pcc"} -> "C14"
             [] op.op \in {"new", "rand", "rand1", "twist"} -> "C01"
             [] op.op \in {"lset", "lget", "get", "seti", "ins", "del", "compl", "nol", "slice"} -> "C19"
             [] op.op \in {"arith", "ldot", "m2", "mass", "totmom"} -> "C22"
             [] op.op \in {"polar", "setref", "refset"} -> "C21"
\* the object an operation may change (0: none)
Target(op) == CASE op.op \in {"make", "makep", "new", "set", "fix", "fix0", "fixr", "afs", "rand", "rand1", "twist",
                              "lset", "seti", "ins", "del", "tofield", "setm", "setref", "refset", "poke"} -> op.h
                [] op.op \in {"copy", "deepcopy", "pickle", "image", "cluster", "arith"} -> op.g
                [] OTHER -> 0
\* reads of positions
InRange(o, i) == i >= 1 /\ i <= Len(o.legs)
MustRaise(s, op) == CASE op.op \in {"get", "seti", "ins", "del"} -> ~InRange(s[op.h], op.i)
                      [] OTHER -> FALSE

\* expressions that only need momenta
RECURSIVE SpinorFree(_)
SpinorFree(t) == t[1] \in {"s", "mass", "num"} \/ (t[1] = "mul" /\ SpinorFree(t[2]) /\ SpinorFree(t[3]))
\* operations whose precondition does not hold are not judged
Defined(m, im, s, op) ==
    CASE op.op = "fix" -> /\ HasAllSp(AbsLegs(s[op.h]))
                          /\ FixDefined(m, AbsLegs(s[op.h]), op.i, op.j, op.axis)
      [] op.op = "fix0" -> /\ HasAllSp(AbsLegs(s[op.h]))
                           /\ \A a, b \in 1..Len(s[op.h].legs) : a # b => FixDefined(m, AbsLegs(s[op.h]), a, b, op.axis)
      [] op.op = "fixr" -> im > 0 /\ HasAllSp(AbsLegs(s[op.h])) /\ RealFixDefined(m, im, AbsLegs(s[op.h]), op.i, op.j, op.axis)
      [] op.op = "set" -> op.rep \in {"P", "Pb", "p", "pd"} \/ (HasSp(Abs(s[op.h].legs[op.i])) /\ s[op.h].legs[op.i].sp = "none")
      [] op.op \in {"lset", "poke"} -> HasSp(Abs(s[op.h].legs[op.i])) /\ s[op.h].legs[op.i].sp = "none"
      [] op.op = "lget" -> HasSp(Abs(s[op.h].legs[op.i]))
      [] op.op = "cluster" -> \A k \in 1..Len(op.spins) : op.spins[k][1] # "none" =>
                                 \A j \in 1..Len(op.corners[k]) : HasSp(Abs(s[op.h].legs[op.corners[k][j]])) /\ s[op.h].legs[op.corners[k][j]].sp = "none"
      [] op.op \in {"twist", "comp"} -> im > 0
      [] op.op = "polar" -> LET a == IF op.what = "pe" THEN op.j ELSE op.i
                                q == Abs(s[op.h].ref)
                            IN /\ PolDefined(m, Abs(s[op.h].legs[a]), q, op.hel[a])
                               /\ op.what = "ee" => PolDefined(m, Abs(s[op.h].legs[op.j]), q, op.hel[op.j])
      [] op.op = "hash" -> \A h \in {op.h, op.g} : \A k \in 1..Len(s[h].legs) : (s[h].legs[k].r = <<>> \/ Known(s[h].legs[k].r)) /\ (s[h].legs[k].l = <<>> \/ Known(s[h].legs[k].l))
      [] op.op = "eval" -> /\ HasAllSp(AbsLegs(s[op.h])) \/ SpinorFree(op.ast)
                           /\ \A k \in 1..Len(s[op.h].ms) : s[op.h].ms[k][2] = "e" => \A j \in 1..Len(s[op.h].ms[k][3]) : s[op.h].ms[k][3][j] \in 1..Len(s[op.h].legs)
                           /\ Ev(m, [pt |-> AbsLegs(s[op.h]), ms |-> MassFun(s[op.h].ms)], op.ast) # Undef
      [] op.op = "imgeval" -> /\ HasAllSp(AbsLegs(s[op.h]))
                              /\ EvPt(m, AbsLegs(s[op.h]), op.ast) # Undef
      [] OTHER -> TRUE

NewObj(tag, o, n) == IF o.kind # "Ps" \/ Len(o.legs) # n THEN {tag \o ":number of particles"} ELSE {}
OnPhaseSpace(m, o) ==
       (IF ~OnShell(m, AbsLegs(o)) THEN {"C01:massive particle"} ELSE {})
  \cup (IF ~MomCons(m, AbsLegs(o)) THEN {"C01:momentum not conserved"} ELSE {})

ExpectP(m, im, val, shape) == CASE shape = "p" -> Slash(m, im, val) [] shape = "P" -> val

Post(m, im, s, op, ret, t) ==           \* clauses about the changed object; t is the store after the step
    LET tag == Tag(op)
        pre == IF "h" \in DOMAIN op /\ op.h \in DOMAIN s THEN s[op.h] ELSE NoObj
        new == IF Target(op) = 0 THEN NoObj ELSE t[Target(op)]
        legs == AbsLegs(pre)
    IN CASE op.op = "make" -> LegsMatch(tag, [k \in 1..Len(op.legs) |-> SLeg(m, op.legs[k][1], op.legs[k][2])], new.legs)
                              \cup (IF MsOf(op.ms) # MsOf(new.ms) THEN {"C01:masses"} ELSE {})
         [] op.op = "makep" -> LegsMatch(tag, [k \in 1..Len(op.vals) |-> PLeg(ExpectP(m, im, op.vals[k], op.shape))], new.legs)
         [] op.op = "new" -> NewObj("C01", new, op.n) \cup OnPhaseSpace(m, new)
                              \cup (IF {new.ms[k][1] : k \in 1..Len(new.ms)} # Img(op.names) THEN {"C01:masses"} ELSE {})
         [] op.op = "rand" -> SameExcept("C01", pre, new, 1..Len(pre.legs)) \cup OnPhaseSpace(m, new)
         [] op.op = "twist" -> SameExcept("C01", pre, new, 1..Len(pre.legs))
                               \cup (IF ~OnShell(m, AbsLegs(new)) THEN {"C01:massive particle"} ELSE {})
                               \cup (IF ~MomCons(m, AbsLegs(new)) THEN {"C01:momentum not conserved"} ELSE {})
         [] op.op = "rand1" -> SameExcept("C01", pre, new, {op.i})
                               \cup (IF Mass2(m, new.legs[op.i].P) # 0 THEN {"C01:massive particle"} ELSE {})
         [] op.op \in {"copy", "deepcopy", "pickle"} -> SameObj(tag, pre, new)
         [] op.op \in {"image", "afs"} ->
               LET perm == IF op.op = "afs" THEN IdPerm(Len(pre.legs)) ELSE op.perm
                   par == IF op.op = "afs" THEN TRUE ELSE op.par
                   inv == InvPerm(perm)
               IN LegsMatch(tag, ImageLegs(m, legs, perm, par), new.legs)
                  \cup (IF ~par /\ Len(pre.legs) = Len(new.legs) /\ \E k \in 1..Len(pre.legs) : new.legs[k] # pre.legs[inv[k]]
                        THEN {tag \o ":particle not carried over"} ELSE {})
                  \cup (IF par /\ Len(pre.legs) = Len(new.legs) /\ \E k \in 1..Len(pre.legs) :
                                  legs[inv[k]].sp # "none" /\ HasSp(legs[inv[k]]) /\ ~SpinParOK(m, legs[inv[k]], Abs(new.legs[k]))
                        THEN {tag \o ":spin states"} ELSE {})
                  \cup (IF MsOf(pre.ms) # MsOf(new.ms) THEN {tag \o ":masses"} ELSE {})
                  \cup (IF pre.fld # new.fld THEN {tag \o ":field"} ELSE {})
         [] op.op = "cluster" ->
               LegsMatch(tag, ClusterLegs(m, legs, op.corners, op.spins), new.legs)
               \cup (IF Len(new.legs) = Len(op.corners) /\ \E k \in 1..Len(op.corners) : Len(op.corners[k]) = 1 /\ new.legs[k] # pre.legs[op.corners[k][1]]
                     THEN {tag \o ":single leg not carried over"} ELSE {})
               \cup (IF MsOf([k \in 1..Len(pre.ms) |-> ClusterMass(op.corners, pre.ms[k])]) # MsOf(new.ms) THEN {tag \o ":masses"} ELSE {})
               \cup (IF pre.fld # new.fld THEN {tag \o ":field"} ELSE {})
         [] op.op = "arith" ->
               LegsMatch(tag, <<PLeg(Arith(m, s, op.tree))>>, new.legs) \cup (IF new.kind # "P" THEN {tag \o ":kind"} ELSE {})
         [] op.op \in {"set", "lset"} ->
               LET e == SetRep(m, im, legs[op.i], op.rep, op.val)
                   rb == ret.val
               IN SameExcept(tag, pre, new, {op.i})
                  \cup LegMatch(tag, e, new.legs[op.i])
                  \cup (IF op.op = "set" /\ rb # op.val THEN {tag \o ":does not read back as assigned"} ELSE {})
         [] op.op = "fix" ->
               SameExcept(tag, pre, new, {op.i, op.j}) \cup LegsMatch(tag, FixLegs(m, legs, op.i, op.j, op.axis), new.legs)
               \cup (IF ~MomCons(m, AbsLegs(new)) THEN {tag \o ":momentum not conserved"} ELSE {})
         [] op.op = "fix0" ->
               LET n == Len(pre.legs)
                   ok == \E a, b \in 1..n : a # b /\ SameExcept(tag, pre, new, {a, b}) = {} /\ LegsMatch(tag, FixLegs(m, legs, a, b, op.axis), new.legs) = {}
               IN (IF ~ok THEN {tag \o ":not the repair of one pair"} ELSE {})
                  \cup (IF ~MomCons(m, AbsLegs(new)) THEN {tag \o ":momentum not conserved"} ELSE {})
         [] op.op = "fixr" ->
               SameExcept(tag, pre, new, {op.i, op.j})
               \cup (IF ~MomCons(m, AbsLegs(new)) THEN {tag \o ":momentum not conserved"} ELSE {})
               \cup (IF \E k \in {op.i, op.j} : Mass2(m, new.legs[k].P) # 0 THEN {tag \o ":massive particle"} ELSE {})
         [] op.op = "seti" -> SameExcept(tag, pre, new, {op.i}) \cup LegMatch(tag, SLeg(m, op.leg[1], op.leg[2]), new.legs[op.i])
         [] op.op = "ins" -> LegsMatch(tag, InsertAt(legs, op.i, SLeg(m, op.leg[1], op.leg[2])), new.legs)
         [] op.op = "del" -> IF new.legs # Without(pre.legs, op.i) THEN {tag \o ":wrong particle deleted"} ELSE {}
         [] op.op = "tofield" -> LegsMatch(tag, legs, new.legs)
         [] op.op = "poke" -> SameExcept(tag, pre, new, {op.i}) \cup LegMatch(tag, SetRep(m, im, legs[op.i], op.rep, Poked(legs[op.i], op)), new.legs[op.i])
         [] op.op \in {"setref", "refset"} -> SameExcept(tag, [pre EXCEPT !.ref = new.ref], new, {}) \cup LegMatch(tag, SLeg(m, op.leg[1], op.leg[2]), new.ref)
         [] op.op = "setm" -> SameExcept(tag, [pre EXCEPT !.ms = SetMass(pre.ms, op.mass)], new, {})
         [] OTHER -> {}

\* values returned by read-only operations
RetClauses(m, im, s, op, ret, inexact, small) ==
    LET tag == Tag(op)
        pre == IF "h" \in DOMAIN op /\ op.h \in DOMAIN s THEN s[op.h] ELSE NoObj
        legs == AbsLegs(pre)
        is(v) == IF ret.val # v THEN {tag \o ":wrong answer of " \o op.op} ELSE {}
        bool(b) == is(Scal(IF b THEN 1 ELSE 0))
    IN CASE op.op = "eval" -> is(Ev(m, [pt |-> legs, ms |-> MassFun(pre.ms)], op.ast))
         [] op.op = "imgeval" -> is(EvPt(m, legs, op.ast))
         [] op.op = "lget" -> is(RepVal(m, im, legs[op.i], op.rep))
         [] op.op = "get" -> is(legs[op.i].P)
         [] op.op = "slice" -> is([k \in 1..Len(SliceOf(legs, op.lo, op.hi, op.st)) |-> LET P == SliceOf(legs, op.lo, op.hi, op.st)[k].P IN P[1] \o P[2]])
                                 \cup (IF ret.rest # <<Len(SliceOf(legs, op.lo, op.hi, op.st)), 1>> THEN {tag \o ":a slice is not a point of the same field with its particles"} ELSE {})
         [] op.op = "comp" -> is(Scal(FourMom(m, im, legs[op.i].P)[op.mu + 1]))
         [] op.op = "mass" -> is(<<[k \in 1..Len(legs) |-> Mass2(m, legs[k].P)]>>)
         [] op.op = "mcc" -> bool(MomCons(m, legs))
         [] op.op = "osc" -> bool(OnShell(m, legs))
         [] op.op = "eq" -> IF inexact /\ ret.val = Scal(0) THEN {} ELSE bool(ObjEq(AbsObj(s[op.h]), AbsObj(s[op.g])))
         [] op.op = "hash" -> IF s[op.h].legs = s[op.g].legs /\ s[op.h].kind = s[op.g].kind /\ s[op.h].fld = s[op.g].fld /\ ret.val # Scal(1)
                              THEN {tag \o ":equal copies hash differently"} ELSE {}
         [] op.op = "ldot" -> is(Scal(LDot(m, legs[op.i].P, legs[op.j].P)))
         [] op.op = "m2" -> is(<<[k \in 1..Len(legs) |-> Mass2(m, legs[k].P)]>>)
         [] op.op = "totmom" -> is(TotalMom(m, legs))
         [] op.op = "polar" ->
               LET q == Abs(pre.ref)
               IN (CASE op.what = "ee" -> is(Scal(PolEE(m, legs[op.i], op.hel[op.i], legs[op.j], op.hel[op.j], q)))
                    [] op.what = "ep" -> is(Scal(PolEP(m, legs[op.i], op.hel[op.i], legs[op.j].P, q)))
                    [] op.what = "pe" -> is(Scal(PolEP(m, legs[op.j], op.hel[op.j], legs[op.i].P, q))))
         [] op.op = "compl" -> is(<<Complement(Len(legs), op.labs)>>)
         [] op.op = "nol" -> is(NOL(Len(legs), op.ijk))
         [] op.op = "pcc" ->
               LET inv == IF op.asts # <<>> THEN op.asts ELSE op.all
                   zero == {k \in 1..Len(inv) : LET v == EvPt(m, legs, inv[k]) IN \A a \in 1..Len(v) : \A b \in 1..Len(v[1]) : v[a][b] % small = 0}
               IN  (IF ret.val[1][1] # (IF MomCons(m, legs) THEN 1 ELSE 0) THEN {tag \o ":momentum answer"} ELSE {})
              \cup (IF ret.val[1][2] # (IF OnShell(m, legs) THEN 1 ELSE 0) THEN {tag \o ":on-shell answer"} ELSE {})
              \cup (IF ret.big # <<>> THEN {tag \o ":large invariants"} ELSE {})
              \cup (IF Img(ret.small) # zero THEN {tag \o ":small invariants"} ELSE {})
              \cup (IF ret.argchanged THEN {tag \o ":the caller's list changed"} ELSE {})
         [] OTHER -> {}

----------------------------------------------------------------------------
Apply(s, delta) ==
    LET hs == {delta[k][1] : k \in 1..Len(delta)}
    IN [h \in DOMAIN s \cup hs |-> IF h \in hs THEN delta[CHOOSE k \in 1..Len(delta) : delta[k][1] = h][2] ELSE s[h]]

\* legs with components outside Z/m (field extensions, lost p-adic digits) are not judged further
Tainted(o) == \E k \in 1..Len(o.legs) : ~Known(o.legs[k].P)
\* even where the outcome is not determined, only the named particles of the named point may change
Named(op) == CASE op.op \in {"set", "lset", "poke", "rand1"} -> {op.i} [] op.op \in {"fix", "fixr"} -> {op.i, op.j}
LegFrame(tag, s, t, op) == IF op.op \in {"set", "lset", "poke", "rand1", "fix", "fixr"} /\ op.h \in DOMAIN s THEN SameExcept(tag, s[op.h], t[op.h], Named(op)) ELSE {}
\* shapes: two components per index, one column or one row unless a spin index is open
Dim(A, a, b) == Len(A) = a /\ \A k \in 1..a : Len(A[k]) = b
BadShape(g) == (Known(g.P) /\ ~Dim(g.P, 2, 2)) \/ (Known(g.Pb) /\ ~Dim(g.Pb, 2, 2))
               \/ (Known(g.r) /\ ~Dim(g.r, 2, 1) /\ ~Dim(g.r, 2, 2)) \/ (Known(g.ru) /\ ~Dim(g.ru, 1, 2) /\ ~Dim(g.ru, 2, 2))
               \/ (Known(g.l) /\ ~Dim(g.l, 1, 2) /\ ~Dim(g.l, 2, 2)) \/ (Known(g.lu) /\ ~Dim(g.lu, 2, 1) /\ ~Dim(g.lu, 2, 2))
Verdict(tr, s, st) ==
    LET m == tr.m  im == tr.im
        op == st.op
        t == Apply(s, st.delta)
        tag == Tag(op)
        tgt == Target(op)
        changed == {st.delta[k][1] : k \in 1..Len(st.delta)}
        frame == IF changed \ {tgt} # {} THEN {tag \o ":another object changed", "C13:another object changed"}
                 \cup (IF \E h \in changed : h \in DOMAIN s /\ s[h].kind = "P" THEN {"C22:another object changed"} ELSE {}) ELSE {}
        srcs == (IF "h" \in DOMAIN op THEN {op.h} ELSE {}) \cup (IF op.op \in {"eq", "hash"} THEN {op.g} ELSE {})
                \cup (IF op.op = "arith" THEN {op.used[k] : k \in 1..Len(op.used)} ELSE {})
        taint == \E h \in srcs : h \in DOMAIN s /\ Tainted(s[h])
        tgttaint == tgt # 0 /\ Tainted(t[tgt])
        misshapen == \E h \in changed : \E k \in 1..Len(t[h].legs) : BadShape(t[h].legs[k])
    IN IF misshapen THEN frame \cup {"C02:components of the wrong shape", tag \o ":components of the wrong shape"}
       ELSE IF taint THEN frame
       ELSE IF MustRaise(s, op)
       THEN frame \cup (IF st.ret.st = "ok" THEN {tag \o ":bad position accepted"} ELSE {}) \cup (IF changed # {} THEN {tag \o ":changed on rejection"} ELSE {})
       ELSE IF ~Defined(m, im, s, op) THEN frame \cup (IF st.ret.st = "ok" THEN LegFrame(tag, s, t, op) ELSE {})
       ELSE IF st.ret.st = "raise" /\ tr.field = "padic" /\ st.ret.txt = "NotImplementedError" THEN frame    \* no square roots of odd valuation
       ELSE IF st.ret.st = "raise" THEN frame \cup {tag \o ":raised " \o st.ret.txt}
       ELSE IF tgttaint THEN (IF tr.soft THEN frame ELSE frame \cup {tag \o ":result outside the field"})
       ELSE frame
            \cup Post(m, im, s, op, st.ret, t)
            \cup RetClauses(m, im, s, op, st.ret, tr.field = "mpc", tr.small)
            \cup LET incoherent == UNION {UNION {LegClauses(m, im, tr.field, t[h].legs[k]) : k \in 1..Len(t[h].legs)} : h \in changed}
                 IN incoherent \cup (IF incoherent # {} /\ tag # "C02" THEN {tag \o ":the result's representations differ"} ELSE {})

(* Randomly generated values lie outside Z/m in some fields.  What can still be said of them: which components changed (the        *)
(* digests dr, dl, dP), whether all belong to the field, and, for complex numbers, how large the quantities that vanish are.      *)
Vanishes(mag, x) == x <= mag.tol
GenOps == {"new", "rand", "rand1", "twist", "fix", "fix0", "fixr"}
MagClauses(fld, s, op, ret, t) ==
    LET tag == Tag(op)
        pre == IF op.h \in DOMAIN s THEN s[op.h] ELSE NoObj
        new == t[op.h]
        n == Len(pre.legs)
        same(k) == pre.legs[k] = new.legs[k]
        halfsame(k) == IF op.axis = 1 THEN pre.legs[k].dl = new.legs[k].dl ELSE pre.legs[k].dr = new.legs[k].dr
    IN (IF op.op \in {"new", "rand"} /\ ~ret.types THEN {"C01:components outside the field"} ELSE {})
       \cup (IF op.op = "fix" /\ Len(new.legs) = n /\ \E k \in 1..n : IF k \in {op.i, op.j} THEN ~halfsame(k) ELSE ~same(k)
             THEN {"C03:more than the chosen spinors changed"} ELSE {})
       \cup (IF op.op = "fix0" /\ Len(new.legs) = n /\ ~\E a, b \in 1..n : a # b /\ halfsame(a) /\ halfsame(b) /\ \A k \in (1..n) \ {a, b} : same(k)
             THEN {"C03:more than one pair changed"} ELSE {})
       \cup (IF op.op = "fixr" /\ Len(new.legs) = n /\ \E k \in (1..n) \ {op.i, op.j} : ~same(k) THEN {"C03:another particle changed"} ELSE {})
       \cup (IF fld # "mpc" \/ (op.op \in {"fix", "fix0", "fixr"} /\ ret.mag.den < 0 - 10) THEN {} ELSE      \* a repair dividing by (almost) zero is not judged
                (IF op.op # "rand1" /\ ~Vanishes(ret.mag, ret.mag.mom) THEN {tag \o ":momentum not conserved"} ELSE {})
           \cup (IF op.op \in {"new", "rand", "twist"} /\ ~Vanishes(ret.mag, ret.mag.mass) THEN {tag \o ":massive particle"} ELSE {})
           \cup (IF op.op \in {"new", "rand"} /\ ~Vanishes(ret.mag, ret.mag.coh) THEN {"C02:representations differ"} ELSE {})
           \cup (IF op.op = "new" /\ Len(new.legs) # op.n THEN {"C01:number of particles"} ELSE {})
           \cup (IF op.op \in {"new", "rand"} /\ op.real /\ ~Vanishes(ret.mag, ret.mag.im) THEN {"C01:momenta not real"} ELSE {})
           \cup (IF op.op = "fixr" /\ Vanishes(ret.mag, ret.mag.imbefore) /\ ~Vanishes(ret.mag, ret.mag.im) THEN {"C03:momenta not real"} ELSE {})
           \cup (IF op.op \in {"new", "rand"} /\ \E a, b \in 1..Len(new.legs) : a # b /\ new.legs[a].dP = new.legs[b].dP THEN {"C01:repeated momenta"} ELSE {}))

VARIABLES tr, i, store, bad
vars == <<tr, i, store, bad>>
Init == tr = 1 /\ i = 1 /\ store = [h \in {} |-> NoObj] /\ bad = <<>>
Cur == Traces[tr]
Consume == /\ tr <= Len(Traces) /\ i <= Len(Cur.steps)
           /\ LET st == Cur.steps[i]
                  v == Verdict(Cur, store, st) \cup (IF st.op.op \in GenOps /\ st.ret.st = "ok" /\ Cur.field \in {"mpc", "padic", "rational", "ff"}
                                                    THEN MagClauses(Cur.field, store, st.op, st.ret, Apply(store, st.delta)) ELSE {})
              IN bad' = IF v = {} THEN bad ELSE Append(bad, <<tr, i, SetToSeq(v)>>)
           /\ store' = Apply(store, Cur.steps[i].delta)
           /\ i' = i + 1 /\ tr' = tr
NextTrace == /\ tr <= Len(Traces) /\ i > Len(Cur.steps)
             /\ tr' = tr + 1 /\ i' = 1 /\ store' = [h \in {} |-> NoObj] /\ bad' = bad
Report == /\ tr = Len(Traces) + 1
          /\ JsonSerialize(Out, bad)
          /\ tr' = tr + 1 /\ UNCHANGED <<i, store, bad>>
Next == Consume \/ NextTrace \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
