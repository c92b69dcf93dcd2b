"""The meaning of a spinor expression (Expr.tla, module for module) over Python numbers.

Only used where a value has no image in the specification's ring Z/m: elements of a field
extension and multi-precision complex numbers.  A leg is a pair (r, l) with r = [[a], [b]] and
l = [[c, d]] in the lower-index convention, as in Spinors.tla."""


def mm(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(1, len(B))), A[i][0] * B[0][j]) for j in range(len(B[0]))] for i in range(len(A))]


def add(A, B, s=1):
    return [[A[i][j] + B[i][j] if s > 0 else A[i][j] - B[i][j] for j in range(len(A[0]))] for i in range(len(A))]


def flip(P):
    return [[P[1][1], -P[0][1]], [-P[1][0], P[0][0]]]


def ru(r):
    return [[r[1][0], -r[0][0]]]


def lu(l):
    return [[l[0][1]], [-l[0][0]]]


def det(A):
    return A[0][0] * A[1][1] - A[0][1] * A[1][0]


def tr(A):
    return A[0][0] + A[1][1]


class Point:
    def __init__(self, legs, P=None):
        self.legs = legs
        self.P = P or [mm(lu(l), ru(r)) for r, l in legs]

    def sumP(self, legs):
        tot = self.P[legs[0] - 1]
        for k in legs[1:]:
            tot = add(tot, self.P[k - 1])
        return tot

    def signed(self, t):
        tot = None
        for s, k in t:
            P = self.P[k - 1]
            if tot is None:
                tot = P if s >= 0 else [[-x for x in row] for row in P]
            else:
                tot = add(tot, P, s if s else 1)
        return tot

    def slash(self, mids, bar):
        out = None
        for t in mids:
            X = self.signed(t)
            X = flip(X) if bar else X
            out = X if out is None else mm(out, X)
            bar = not bar
        return out

    def mand(self, legs):
        return det(self.sumP(legs))

    def ldot2(self, P, Q):          # twice the Lorentz product
        return tr(mm(P, flip(Q)))

    def nol(self, ijk):
        n, out = len(self.P), []
        for i in ijk:
            run, k = [i], 1 + i % n
            while k not in ijk:
                run.append(k)
                k = 1 + k % n
            out.append(run)
        return out

    def ev(self, e):
        k = e[0]
        if k == "ang":
            return mm(ru(self.legs[e[1] - 1][0]), self.legs[e[2] - 1][0])[0][0]
        if k == "sqr":
            return mm(self.legs[e[1] - 1][1], lu(self.legs[e[2] - 1][1]))[0][0]
        if k == "chain":
            _, s, i, mids, t, j = e
            mid = self.slash(mids, s == "A")
            lhs = mm(ru(self.legs[i - 1][0]) if s == "A" else self.legs[i - 1][1], mid)
            return mm(lhs, self.legs[j - 1][0] if t == "A" else lu(self.legs[j - 1][1]))[0][0]
        if k == "s":
            return self.mand(e[1])
        if k == "tr5":
            return tr(self.slash(e[1], True)) - tr(self.slash(e[1], False))
        if k == "tr":
            return tr(self.slash(e[1], True))
        if k in ("D3", "D"):
            nol = self.nol(e[1]) if k == "D3" else e[1]
            if len(nol) != 3:
                raise NotImplementedError("Gram of %d corners" % len(nol))
            P1, P2 = self.sumP(nol[0]), self.sumP(nol[1])
            x = self.ldot2(P1, P2) / 2
            return x * x - det(P1) * det(P2)
        if k == "Om":
            nol = self.nol(e[1])
            s2, s1, s0 = self.mand(nol[2]), self.mand(nol[1]), self.mand(nol[0])
            return 2 * s2 * s1 - (s2 + s1 - s0) * self.mand(nol[2] + nol[0][:1])
        if k == "Pi":
            nol = self.nol(e[1])
            return self.mand(nol[2] + nol[0][:1]) - self.mand(nol[2] + nol[0][1:2])
        if k == "sub":
            return self.ev(e[1]) - self.ev(e[2])
        if k == "add":
            return self.ev(e[1]) + self.ev(e[2])
        raise NotImplementedError(k)
