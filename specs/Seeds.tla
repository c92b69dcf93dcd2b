-------------------------------- MODULE Seeds -------------------------------
(***************************************************************************)
(* Reproducibility.  The state is the history of requests made so far, by  *)
(* any process, each with the kinematics (a digest) it produced.           *)
(* GenSpec draws histories: processes, and in each a mix of seeded and     *)
(* unseeded requests and of disturbing operations that move the global     *)
(* generator.  TraceSpec judges the recording.                             *)
(***************************************************************************)
EXTENDS Zm, Json, IOUtils, SequencesExt, FiniteSetsExt

EnvInt(name, dflt) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE dflt
Seed == EnvInt("GSEED", 1)
Procs == EnvInt("GPROCS", 3)
Steps == EnvInt("GSTEPS", 20)
Heavy == EnvInt("GHEAVY", 0) = 1        \* requests that need the algebraic solver

\* a request: [kind, n, field, real, masses, coll, seed, extra]   (seed = -1: unseeded)
SeedsUsed == <<0, 1, 2, 3, 7>>
Fields == <<"ff", "padic", "mpc", "mpc", "rational">>
Disturb == <<"reseed", "draw", "point", "eval", "fix", "rand", "particle", "mass">>
Light(sd, p) == LET f == Pick(sd, p \o <<1>>, Fields)
                IN [kind |-> "new", n |-> 3 + Rnd(sd, p \o <<2>>, 3), field |-> f, real |-> f = "mpc" /\ Rnd(sd, p \o <<3>>, 2) = 0,
                    masses |-> Rnd(sd, p \o <<4>>, 4), coll |-> Pick(sd, p \o <<5>>, <<"set", "list">>),
                    seed |-> IF Rnd(sd, p \o <<6>>, 5) = 0 THEN 0 - 1 ELSE Pick(sd, p \o <<7>>, SeedsUsed), extra |-> 0]
HeavyReq(sd, p) == LET k == Pick(sd, p \o <<1>>, <<"sing", "sing", "slice", "slice", "slice2", "generic">>)
                   IN [kind |-> k, n |-> CASE k = "sing" -> 4 + Rnd(sd, p \o <<2>>, 2) [] k = "slice2" -> 6 [] k = "generic" -> 4 [] OTHER -> 5,
                       field |-> IF k = "sing" THEN Pick(sd, p \o <<3>>, <<"ff", "padic">>) ELSE "ff", real |-> FALSE,
                       masses |-> 0, coll |-> "set", seed |-> IF Rnd(sd, p \o <<6>>, 6) = 0 THEN 0 - 1 ELSE Pick(sd, p \o <<7>>, <<1, 2>>), extra |-> Rnd(sd, p \o <<8>>, 2)]
GenStep(sd, p) == IF Rnd(sd, p \o <<20>>, 3) = 0 THEN [kind |-> "disturb", what |-> Pick(sd, p \o <<21>>, Disturb), arg |-> Rnd(sd, p \o <<22>>, 1000)]
                  ELSE IF Heavy THEN HeavyReq(sd, p) ELSE Light(sd, p)

VARIABLES i, hist, bad
vars == <<i, hist, bad>>
GenInit == i = 1 /\ hist = <<>> /\ bad = <<>>
GenNext == \/ /\ i <= Procs
              /\ hist' = Append(hist, [j \in 1..Steps |-> GenStep(Seed, <<i, j>>)])
              /\ i' = i + 1 /\ bad' = bad
           \/ /\ i = Procs + 1 /\ JsonSerialize(IOEnv["GOUT"], hist) /\ i' = i + 1 /\ UNCHANGED <<hist, bad>>
GenSpec == GenInit /\ [][GenNext]_vars

----------------------------------------------------------------------------
Tr == JsonDeserialize(IOEnv["TRACE"])      \* sequence of [req, dig, st]
SameArgs(a, b) == [a EXCEPT !.seed = 0] = [b EXCEPT !.seed = 0]
Clauses(t) ==
    LET r == t.req
    IN (IF t.st # "ok" THEN {"C18:request failed"} ELSE
          (IF r.seed >= 0 /\ \E k \in 1..Len(hist) : hist[k].req = r /\ hist[k].dig # t.dig THEN {"C18:same seed and arguments, different point"} ELSE {})
     \cup (IF r.seed >= 0 /\ \E k \in 1..Len(hist) : hist[k].req # r /\ hist[k].req.seed >= 0 /\ SameArgs(hist[k].req, r) /\ hist[k].dig = t.dig
           THEN {"C18:different seeds, same point"} ELSE {})
     \cup (IF r.seed < 0 /\ \E k \in 1..Len(hist) : SameArgs(hist[k].req, r) /\ hist[k].dig = t.dig
           THEN {"C18:unseeded request repeats an earlier point"} ELSE {}))
TrInit == i = 1 /\ hist = <<>> /\ bad = <<>>
TrNext == \/ /\ i <= Len(Tr)
             /\ LET v == Clauses(Tr[i]) IN bad' = IF v = {} THEN bad ELSE Append(bad, <<i, SetToSeq(v)>>)
             /\ hist' = Append(hist, Tr[i]) /\ i' = i + 1
          \/ /\ i = Len(Tr) + 1 /\ JsonSerialize(IOEnv["VERDICT"], bad) /\ i' = i + 1 /\ UNCHANGED <<hist, bad>>
TraceSpec == TrInit /\ [][TrNext]_vars
=============================================================================
