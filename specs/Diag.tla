-------------------------------- MODULE Diag ---------------------------------
(***************************************************************************)
(* The overall consistency check over fields with a magnitude.             *)
(*                                                                         *)
(* Particle k has the angle spinor 10^e[k] * (a[k][1], a[k][2]) and the    *)
(* square spinor 10^f[k] * (s[k][1], s[k][2]) with small integers a, s, so *)
(* the magnitude of every bracket, and of chains and Mandelstams of two    *)
(* brackets, is (integer) * 10^(integer) and its comparison with the       *)
(* thresholds 10^-8 and 10^8 is exact.  Values equal to a threshold are    *)
(* not generated.                                                          *)
(***************************************************************************)
EXTENDS Zm, Json, IOUtils, SequencesExt

EnvInt(name, dflt) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE dflt
Seed == EnvInt("GSEED", 1)
Count == EnvInt("GCOUNT", 10)
Pow10(k) == 10 ^ k
Ab(x) == IF x < 0 THEN 0 - x ELSE x
Det(u, v) == Ab(u[1] * v[2] - u[2] * v[1])
Max2(u) == IF Ab(u[1]) > Ab(u[2]) THEN Ab(u[1]) ELSE Ab(u[2])

\* magnitude <<coefficient, exponent>> of an invariant
Mag(pt, v) ==
    LET A(i, j) == <<Det(pt.a[i], pt.a[j]), pt.e[i] + pt.e[j]>>
        S(i, j) == <<Det(pt.s[i], pt.s[j]), pt.f[i] + pt.f[j]>>
        Prod(x, y) == <<x[1] * y[1], x[2] + y[2]>>
    IN CASE v[1] = "A" -> A(v[2], v[3])
         [] v[1] = "S" -> S(v[2], v[3])
         [] v[1] = "C" -> Prod(A(v[2], v[3]), S(v[3], v[4]))                               \* <i|j|k]
         [] v[1] = "M" -> Prod(A(v[2], v[3]), S(v[2], v[3]))                               \* s_ij
         [] v[1] = "O" -> Prod(A(v[2], v[3]), <<Max2(pt.s[v[3]]), pt.f[v[3]]>>)            \* <i|j|, the largest component
\* against 10^t
Below(x, t) == x[1] = 0 \/ (IF t - x[2] >= 9 THEN TRUE ELSE IF t - x[2] < 0 THEN FALSE ELSE x[1] < Pow10(t - x[2]))
Equal(x, t) == x[1] # 0 /\ t - x[2] >= 0 /\ t - x[2] < 9 /\ x[1] = Pow10(t - x[2])
Small(pt, v) == Below(Mag(pt, v), 0 - 8)
Big(pt, v) == ~Below(Mag(pt, v), 8)
Clear(pt, v) == ~Equal(Mag(pt, v), 0 - 8) /\ ~Equal(Mag(pt, v), 8)

Default(n) == LET prs == SelectSeq([q \in 1..(n * n) |-> <<1 + ((q - 1) \div n), 1 + ((q - 1) % n)>>], LAMBDA x : x[1] < x[2])
              IN [q \in 1..Len(prs) |-> <<"A", prs[q][1], prs[q][2]>>] \o [q \in 1..Len(prs) |-> <<"S", prs[q][1], prs[q][2]>>]
Int9(sd, path) == Rnd(sd, path, 19) - 9
Sp(sd, path) == LET u == <<Int9(sd, path \o <<1>>), Int9(sd, path \o <<2>>)>> IN IF u = <<0, 0>> THEN <<1, 2>> ELSE u
RndInv(sd, path, n) ==
    LET kind == Pick(sd, path \o <<9>>, <<"A", "S", "C", "C", "M", "O">>)
        i == 1 + Rnd(sd, path \o <<1>>, n)
        j == 1 + ((i + Rnd(sd, path \o <<2>>, n - 1)) % n)
        k == 1 + ((j + Rnd(sd, path \o <<3>>, n - 1)) % n)
    IN IF kind = "C" THEN <<"C", i, j, k>> ELSE <<kind, i, j>>
Case(c) ==
    LET sd == (Seed * 7919 + c * 104729) % 60013
        n == 4 + Rnd(sd, <<1>>, 3)
        w == <<0, 0, 4, 5, 7>>[1 + Rnd(sd, <<2>>, 5)]
        pt == [a |-> [k \in 1..n |-> Sp(sd, <<3, k>>)], s |-> [k \in 1..n |-> Sp(sd, <<4, k>>)],
               e |-> [k \in 1..n |-> Rnd(sd, <<5, k>>, 2 * w + 1) - w], f |-> [k \in 1..n |-> Rnd(sd, <<6, k>>, 2 * w + 1) - w]]
        given == IF Rnd(sd, <<7>>, 3) = 0 THEN <<>> ELSE SelectSeq([k \in 1..(2 + Rnd(sd, <<8>>, 7)) |-> RndInv(sd, <<9, k>>, n)], LAMBDA v : Clear(pt, v))
        invs == IF given = <<>> THEN Default(n) ELSE given
    IN [n |-> n, pt |-> pt, given |-> given, invs |-> invs, ok |-> \A k \in 1..Len(invs) : Clear(pt, invs[k]),
        small |-> SelectSeq([k \in 1..Len(invs) |-> k], LAMBDA k : Small(pt, invs[k])),
        big |-> SelectSeq([k \in 1..Len(invs) |-> k], LAMBDA k : Big(pt, invs[k]))]

(* A conserving point of opposite pairs, one entry of one slashed momentum displaced by (base)^d; the field cannot see below (base)^tol. *)
(* The mass of the displaced particle moves by its opposite entry times the displacement.                                               *)
Tol == EnvInt("GTOL", 0 - 284)
Margin == EnvInt("GMARGIN", 6)          \* decades around the tolerance left out: products with entries of the data
Lo == EnvInt("GLO", 0 - 330)
TolCase(c) ==
    LET sd == (Seed * 6101 + c * 90001) % 60013
        half == 2 + Rnd(sd, <<1>>, 2)
        pt == [k \in 1..half |-> <<Sp(sd, <<2, k>>), Sp(sd, <<3, k>>)>>]
        k == 1 + Rnd(sd, <<4>>, 2 * half)
        ab == <<1 + Rnd(sd, <<5>>, 2), 1 + Rnd(sd, <<6>>, 2)>>
        side == Rnd(sd, <<7>>, 4)
        d == IF side = 0 THEN Tol - Margin - Rnd(sd, <<8>>, 20) ELSE IF side = 1 THEN Tol + Margin + Rnd(sd, <<8>>, 4) ELSE Lo + Rnd(sd, <<8>>, 0 - Lo)
        q == IF k <= half THEN k ELSE k - half
        r == pt[q][1]  l == pt[q][2]
        \* entries of the upper slashed momentum up to sign: |i]<i| with |i] = (l2, -l1), <i| = (r2, -r1)
        opp == (IF ab[1] = 1 THEN l[1] ELSE l[2]) * (IF ab[2] = 1 THEN r[1] ELSE r[2])
    IN [half |-> half, pt |-> pt, k |-> k, ab |-> ab, d |-> d, ok |-> d <= Tol - Margin \/ d >= Tol + Margin,
        mom |-> d < Tol, mass |-> opp = 0 \/ d < Tol]

VARIABLES c, done
Init == c = 1 /\ done = <<>>
Step == c <= Count /\ done' = Append(done, IF IOEnv["GKIND"] = "tol" THEN TolCase(c) ELSE Case(c)) /\ c' = c + 1
Write == c = Count + 1 /\ JsonSerialize(IOEnv["GOUT"], done) /\ c' = c + 1 /\ UNCHANGED done
Next == Step \/ Write
Spec == Init /\ [][Next]_<<c, done>>
\* nothing is small and big at once, and rescaling a particle up and another down leaves their bracket alone
DiagSane == (done # <<>> /\ IOEnv["GKIND"] # "tol") =>
    LET d == done[Len(done)]
        swap == [d.pt EXCEPT !.e = [k \in 1..d.n |-> IF k = 1 THEN d.pt.e[1] + 3 ELSE IF k = 2 THEN d.pt.e[2] - 3 ELSE d.pt.e[k]]]
    IN /\ \A k \in 1..Len(d.invs) : ~(Small(d.pt, d.invs[k]) /\ Big(d.pt, d.invs[k]))
       /\ Mag(swap, <<"A", 1, 2>>) = Mag(d.pt, <<"A", 1, 2>>)
=============================================================================
