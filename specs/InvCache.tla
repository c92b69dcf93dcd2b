------------------------------ MODULE InvCache ------------------------------
(***************************************************************************)
(* The on-disk cache of invariants (one per multiplicity).                 *)
(*                                                                         *)
(* A request with the default options may use the cache: it reads it if    *)
(* all families are there, and otherwise computes them and writes them one *)
(* after the other.  A process can be interrupted between any two of these *)
(* steps, files can be damaged, and other processes can run in between.    *)
(* Requests with other options, or declining the cache, compute.           *)
(*                                                                         *)
(* disk : number of families readable from the cache, -1 if there is no    *)
(*        usable cache; the contents of a family written by a request is   *)
(*        `Right` (what a computation gives).                              *)
(* Three things are done with this module:                                 *)
(*   1. exhaustive exploration (MODE=explore): Transparent holds whatever  *)
(*      the schedule of two processes, crash points and damages;           *)
(*   2. generation of histories (MODE=gen) to be replayed into the code;   *)
(*   3. judgement of the recordings (MODE=judge).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Zm

EnvStr(name, dflt) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE dflt
EnvInt(name, dflt) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE dflt
Mode == EnvStr("MODE", "explore")
K    == EnvInt("FAMS", 3)               \* families (9 in the library)
MaxReq == EnvInt("MAXREQ", 4)

(* ------------------------------------------------------------ 1. protocol *)
\* pc: idle, check (about to look), load (reading), gen, open, write, done
\* cachable: does the request use the cache
VARIABLES disk, pc, pos, want, answer, reqs
pvars == <<disk, pc, pos, want, answer, reqs>>
Procs == 1..2
Right == "right"
PInit == /\ disk = 0 - 1 /\ pc = [p \in Procs |-> "idle"] /\ pos = [p \in Procs |-> 0]
         /\ want = [p \in Procs |-> "default"] /\ answer = [p \in Procs |-> "none"] /\ reqs = 0
Request(p) == /\ pc[p] = "idle" /\ reqs < MaxReq /\ reqs' = reqs + 1
              /\ \E w \in {"default", "other"} : want' = [want EXCEPT ![p] = w] /\ pc' = [pc EXCEPT ![p] = IF w = "default" THEN "check" ELSE "gen"]
              /\ answer' = [answer EXCEPT ![p] = "none"] /\ UNCHANGED <<disk, pos>>
Look(p) == /\ pc[p] = "check"
           /\ pc' = [pc EXCEPT ![p] = IF disk = K THEN "load" ELSE "gen"]
           /\ pos' = [pos EXCEPT ![p] = 0] /\ UNCHANGED <<disk, want, answer, reqs>>
\* reading a family that meanwhile disappeared falls back to computing
Load(p) == /\ pc[p] = "load"
           /\ IF disk < pos[p] + 1 THEN pc' = [pc EXCEPT ![p] = "gen"] /\ UNCHANGED <<pos, answer>>
              ELSE IF pos[p] + 1 = K THEN pc' = [pc EXCEPT ![p] = "done"] /\ answer' = [answer EXCEPT ![p] = Right] /\ UNCHANGED pos
              ELSE pos' = [pos EXCEPT ![p] = pos[p] + 1] /\ UNCHANGED <<pc, answer>>
           /\ UNCHANGED <<disk, want, reqs>>
Generate(p) == /\ pc[p] = "gen"
               /\ answer' = [answer EXCEPT ![p] = Right]
               /\ pc' = [pc EXCEPT ![p] = IF want[p] = "default" THEN "open" ELSE "done"]
               /\ UNCHANGED <<disk, pos, want, reqs>>
Open(p) == /\ pc[p] = "open" /\ disk' = 0 /\ pos' = [pos EXCEPT ![p] = 0] /\ pc' = [pc EXCEPT ![p] = "write"] /\ UNCHANGED <<want, answer, reqs>>
WriteFam(p) == /\ pc[p] = "write"
               /\ disk' = IF disk < pos[p] THEN disk ELSE IF pos[p] + 1 > disk THEN pos[p] + 1 ELSE disk
               /\ pos' = [pos EXCEPT ![p] = pos[p] + 1]
               /\ pc' = [pc EXCEPT ![p] = IF pos[p] + 1 = K THEN "done" ELSE "write"]
               /\ UNCHANGED <<want, answer, reqs>>
Return(p) == /\ pc[p] = "done" /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<disk, pos, want, answer, reqs>>
Crash(p) == /\ pc[p] \notin {"idle", "done"} /\ pc' = [pc EXCEPT ![p] = "idle"] /\ answer' = [answer EXCEPT ![p] = "none"] /\ UNCHANGED <<disk, pos, want, reqs>>
Damage == /\ disk >= 0 /\ disk' \in {0 - 1} \cup 0..(K - 1) /\ disk' < disk /\ UNCHANGED <<pc, pos, want, answer, reqs>>
PNext == Damage \/ \E p \in Procs : Request(p) \/ Look(p) \/ Load(p) \/ Generate(p) \/ Open(p) \/ WriteFam(p) \/ Return(p) \/ Crash(p)
Protocol == PInit /\ [][PNext]_pvars
Transparent == \A p \in Procs : pc[p] = "done" => answer[p] = Right
\* a request that declines never touches the disk
Declines == \A p \in Procs : (want[p] = "other" /\ pc[p] # "idle") => pc[p] \in {"gen", "done"}

(* ------------------------------------------------------------ 2. histories *)
Seed  == EnvInt("GSEED", 1)
Count == EnvInt("GCOUNT", 20)
Len0  == EnvInt("GSTEPS", 8)
Events == EnvInt("GEVENTS", 80)         \* interruption points of a request
Big   == EnvInt("GBIG", 0) = 1          \* include multiplicity 6
Ns == IF Big THEN <<3, 4, 5, 5, 6>> ELSE <<3, 4, 4, 5, 5>>
Opts(sd, path) == LET c == Rnd(sd, path \o <<1>>, 4)
                      b(k) == Rnd(sd, path \o <<2, k>>, 2) = 0
                  IN IF c < 2 THEN [no_cached |-> FALSE, no_hard |-> FALSE, r3 |-> TRUE, r4 |-> TRUE, f4 |-> TRUE]
                     ELSE IF c = 2 THEN [no_cached |-> b(1), no_hard |-> b(2), r3 |-> b(3), r4 |-> b(4), f4 |-> b(5)]
                     ELSE LET k == Rnd(sd, path \o <<3>>, 5) IN [no_cached |-> k = 0, no_hard |-> k = 1, r3 |-> k # 2, r4 |-> k # 3, f4 |-> k # 4]
Damages == <<"truncate", "empty", "garbage", "directory", "delete", "dropkey", "badvalue", "parentfile", "shorten">>
GenOp(sd, path, prev) ==
    LET c == Rnd(sd, path \o <<1>>, 12)
        \* mostly the same multiplicity, so that the cache of the previous request matters
        n == IF prev # 0 /\ Rnd(sd, path \o <<2>>, 3) > 0 THEN prev ELSE Pick(sd, path \o <<3>>, Ns)
        new == Rnd(sd, path \o <<4>>, 2) = 0        \* in a new process?
    IN CASE c < 5 -> [op |-> "req", n |-> n, opts |-> Opts(sd, path \o <<5>>), new |-> new]
         [] c < 7 -> [op |-> "crash", n |-> n, mode |-> Pick(sd, path \o <<5>>, <<"kill", "interrupt">>), at |-> 1 + Rnd(sd, path \o <<6>>, Events), new |-> new]
         [] c < 9 -> [op |-> "damage", n |-> n, how |-> Pick(sd, path \o <<5>>, Damages), at |-> Rnd(sd, path \o <<6>>, 1000), new |-> FALSE]
         [] c = 9 -> [op |-> "mutate", n |-> n, at |-> Rnd(sd, path \o <<6>>, 1000), new |-> FALSE]
         [] c = 10 -> [op |-> "foreign", n |-> n, opts |-> [Opts(sd, path \o <<5>>) EXCEPT !.no_cached = TRUE], new |-> new]
         [] c = 11 -> [op |-> "pause", n |-> n, at |-> 1 + Rnd(sd, path \o <<6>>, Events), opts |-> Opts(sd, path \o <<5>>), new |-> TRUE]
VARIABLES c, script, out
gvars == <<c, script, out>>
GInit == c = 1 /\ script = <<>> /\ out = <<>>
Sd(j) == (Seed * 7919 + j * 104729) % 60013
PrevN == IF script = <<>> THEN 0 ELSE script[Len(script)].n
GNext == \/ /\ c <= Count /\ Len(script) < Len0
            /\ script' = Append(script, GenOp(Sd(c), <<Len(script)>>, PrevN)) /\ UNCHANGED <<c, out>>
         \/ /\ c <= Count /\ Len(script) = Len0
            /\ out' = Append(out, script) /\ script' = <<>> /\ c' = c + 1
         \/ /\ c = Count + 1 /\ JsonSerialize(IOEnv["GOUT"], out) /\ c' = c + 1 /\ UNCHANGED <<script, out>>

(* ------------------------------------------------------------ 3. judgement *)
\* Table: answers of uncached computations [n, opts, digest]; Traces: recorded steps [op, st, res, before, after]
Rec == JsonDeserialize(IOEnv["TRACE"])
UsesCache(o) == ~o.no_cached /\ ~o.no_hard /\ o.r3 /\ o.r4 /\ o.f4
Expected(n, o) == LET k == CHOOSE j \in 1..Len(Rec.table) : Rec.table[j].n = n /\ [Rec.table[j].opts EXCEPT !.no_cached = FALSE] = [o EXCEPT !.no_cached = FALSE]
                  IN Rec.table[k].digest
Verdict(e) ==
    IF e.op \in {"req", "foreign", "after", "pause"}
    THEN  (IF e.st # "ok" THEN {"request failed: " \o e.st} ELSE IF e.res # Expected(e.n, e.opts) THEN {"answer differs from an uncached computation"} ELSE {})
     \cup (IF e.opts.no_cached /\ e.before # e.after THEN {"request declining the cache changed it"} ELSE {})
    ELSE {}
JInit == c = 1 /\ script = <<>> /\ out = <<>>
JNext == \/ /\ c <= Len(Rec.steps)
            /\ out' = IF Verdict(Rec.steps[c]) = {} THEN out ELSE Append(out, <<c, CHOOSE x \in Verdict(Rec.steps[c]) : TRUE>>)
            /\ c' = c + 1 /\ UNCHANGED script
         \/ /\ c = Len(Rec.steps) + 1 /\ JsonSerialize(IOEnv["VERDICT"], out) /\ c' = c + 1 /\ UNCHANGED <<script, out>>

Idle == c = 0 /\ script = <<>> /\ out = <<>>
Stub == disk = 0 /\ pc = <<>> /\ pos = <<>> /\ want = <<>> /\ answer = <<>> /\ reqs = 0
Init == CASE Mode = "explore" -> PInit /\ Idle
          [] Mode = "gen" -> GInit /\ Stub
          [] Mode = "judge" -> JInit /\ Stub
Next == CASE Mode = "explore" -> PNext /\ UNCHANGED gvars
          [] Mode = "gen" -> GNext /\ UNCHANGED pvars
          [] Mode = "judge" -> JNext /\ UNCHANGED pvars
Spec == Init /\ [][Next]_<<pvars, gvars>>
TransparentInv == Mode = "explore" => Transparent
DeclinesInv == Mode = "explore" => Declines
=============================================================================
