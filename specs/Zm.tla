--------------------------------- MODULE Zm ---------------------------------
(***************************************************************************)
(* Exact arithmetic in the ring Z/m.  m is either a prime (the finite      *)
(* field F_p) or a prime power p^k (p-adic numbers truncated at k digits). *)
(* m must stay below 46341 so that every product fits TLC's 31-bit ints.   *)
(* The modulus is always the first argument: one trace may mix moduli.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Red(m, a)    == a % m
Add(m, a, b) == (a + b) % m
Sub(m, a, b) == (a - b) % m
Neg(m, a)    == (0 - a) % m
Mul(m, a, b) == (a * b) % m

RECURSIVE EGcd(_, _, _, _)
EGcd(r0, r1, s0, s1) == IF r1 = 0 THEN <<r0, s0>>
                        ELSE EGcd(r1, r0 % r1, s1, s0 - (r0 \div r1) * s1)
Gcd(m, a)    == EGcd(m, a % m, 0, 1)[1]
IsUnit(m, a) == Gcd(m, a) = 1
Inv(m, a)    == EGcd(m, a % m, 0, 1)[2] % m
Quo(m, a, b) == Mul(m, a, Inv(m, b))

RECURSIVE PowM(_, _, _)
PowM(m, a, n) == IF n = 0 THEN 1 % m
                 ELSE IF n % 2 = 0 THEN LET h == PowM(m, a, n \div 2) IN Mul(m, h, h)
                 ELSE Mul(m, a, PowM(m, a, n - 1))

RECURSIVE Valn(_, _, _)                     \* p-adic valuation, capped at k (0 has valuation k)
Valn(p, k, a) == IF k = 0 THEN 0 ELSE IF a % p # 0 THEN 0 ELSE 1 + Valn(p, k - 1, a \div p)

RECURSIVE SumSeq(_, _)
SumSeq(m, s) == IF s = <<>> THEN 0 ELSE Add(m, Head(s), SumSeq(m, Tail(s)))

----------------------------------------------------------------------------
(* Small dense matrices (at most 2x2) as sequences of rows.                *)
(* Entries are built with explicit tuples: TLC evaluates those eagerly.    *)

Rows(A) == Len(A)
Cols(A) == Len(A[1])

MMap2(Op(_, _), A, B) ==
    IF Len(A) = 1
    THEN IF Len(A[1]) = 1 THEN << <<Op(A[1][1], B[1][1])>> >>
         ELSE << <<Op(A[1][1], B[1][1]), Op(A[1][2], B[1][2])>> >>
    ELSE IF Len(A[1]) = 1 THEN << <<Op(A[1][1], B[1][1])>>, <<Op(A[2][1], B[2][1])>> >>
         ELSE << <<Op(A[1][1], B[1][1]), Op(A[1][2], B[1][2])>>,
                 <<Op(A[2][1], B[2][1]), Op(A[2][2], B[2][2])>> >>
MAdd(m, A, B) == LET f(x, y) == Add(m, x, y) IN MMap2(f, A, B)
MSub(m, A, B) == LET f(x, y) == Sub(m, x, y) IN MMap2(f, A, B)
MScale(m, c, A) == LET f(x, y) == Mul(m, c, x) IN MMap2(f, A, A)
MRed(m, A) == LET f(x, y) == Red(m, x) IN MMap2(f, A, A)
SameShape(A, B) == Len(A) = Len(B) /\ Len(A[1]) = Len(B[1])

Transp(A) ==
    IF Len(A) = 1
    THEN IF Len(A[1]) = 1 THEN A ELSE << <<A[1][1]>>, <<A[1][2]>> >>
    ELSE IF Len(A[1]) = 1 THEN << <<A[1][1], A[2][1]>> >>
         ELSE << <<A[1][1], A[2][1]>>, <<A[1][2], A[2][2]>> >>

MDot(m, A, i, B, j) == IF Len(B) = 1 THEN Mul(m, A[i][1], B[1][j])
                       ELSE Add(m, Mul(m, A[i][1], B[1][j]), Mul(m, A[i][2], B[2][j]))
MRow(m, A, i, B) == IF Len(B[1]) = 1 THEN <<MDot(m, A, i, B, 1)>>
                    ELSE <<MDot(m, A, i, B, 1), MDot(m, A, i, B, 2)>>
MatMul(m, A, B) == IF Len(A) = 1 THEN <<MRow(m, A, 1, B)>>
                   ELSE <<MRow(m, A, 1, B), MRow(m, A, 2, B)>>
MCompat(A, B) == Len(A[1]) = Len(B)

Trace2(m, A) == Add(m, A[1][1], A[2][2])
Det2(m, A)   == Sub(m, Mul(m, A[1][1], A[2][2]), Mul(m, A[1][2], A[2][1]))
Zero22 == << <<0, 0>>, <<0, 0>> >>

\* Levi-Civita tensor eps = ((0, 1), (-1, 0)); eps . A and A . eps without materialising it
EpsL(m, A) == IF Len(A[1]) = 1 THEN << <<A[2][1]>>, <<Neg(m, A[1][1])>> >>
              ELSE << <<A[2][1], A[2][2]>>, <<Neg(m, A[1][1]), Neg(m, A[1][2])>> >>
Eps(m) == << <<0, 1 % m>>, <<m - 1, 0>> >>

(* Determinant of an n x n matrix (n >= 1), by expansion along the first row *)
RECURSIVE DetN(_, _)
DropCol(r, c) == SubSeq(r, 1, c - 1) \o SubSeq(r, c + 1, Len(r))
DetN(m, A) ==
    IF Len(A) = 1 THEN A[1][1]
    ELSE LET minor(c) == DetN(m, [i \in 1..(Len(A) - 1) |-> DropCol(A[i + 1], c)])
             RECURSIVE go(_)
             go(c) == IF c > Len(A) THEN 0
                      ELSE Add(m, IF c % 2 = 1 THEN Mul(m, A[1][c], minor(c))
                                  ELSE Neg(m, Mul(m, A[1][c], minor(c))), go(c + 1))
         IN go(1)

----------------------------------------------------------------------------
(* A small deterministic hash used to draw reproducible pseudo-random data  *)
(* from (seed, path) without any hidden generator state.                    *)
Mix0(s, k) == ((s * 16807) + ((k % 60000) * 2621) + 12345) % 65521
Mix(s, k) == LET a == Mix0(s, k) IN ((a % 40009) * (a % 46337) + a) % 65521         \* quadratic: no lattice between neighbouring paths
RECURSIVE Hash(_, _)
Hash(s, path) == IF path = <<>> THEN Mix(Mix(s, 911), 77) ELSE Hash(Mix(s, Head(path)), Tail(path))
Rnd(seed, path, n) == (Hash(Mix(seed, 1), path) * 3 + Hash(Mix(seed, 2) , <<7>> \o path)) % n   \* 0 .. n-1
Pick(seed, path, s) == s[1 + Rnd(seed, path, Len(s))]
=============================================================================
