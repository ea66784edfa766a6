"""Polynomial normal form of field-element terms over GF(p): decides equality of straight-line field formulas.

Leaves are terms that are not ring operations.  Coefficients are kept modulo p; constants are in Montgomery form
(value v stands for v/R).
"""


class Poly:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


class Ring:
    def __init__(self, I, pr):
        self.I, self.p = I, pr.p
        self.R = pow(2, 64 * pr.nw, pr.p)
        self.Ri = pow(self.R, -1, pr.p)
        self.memo = {}
        self.limit = 20000

    # -- arithmetic on {monomial: coeff}, monomial = sorted tuple of leaf ids
    def const(self, c):
        c %= self.p
        return {(): c} if c else {}

    def add(self, a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = (r.get(m, 0) + s * c) % self.p
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, a, b):
        r = {}
        if len(a) * len(b) > self.limit:
            raise OverflowError
        for m, c in a.items():
            for n, d in b.items():
                k = tuple(sorted(m + n))
                v = (r.get(k, 0) + c * d) % self.p
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    def scale(self, a, c):
        return {m: x * c % self.p for m, x in a.items()}

    def leaf(self, t):
        return {(t,): 1}

    def of(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._of(t)
        return r

    def _of(self, t):
        T = self.I.T
        k = T.rev[t]
        if k[0] == "c":
            return self.const(k[1] * self.Ri)
        if k[0] == "o":
            b = T.rev[k[2]]
            op = b[0]
            try:
                if op in ("fpadd", "fpsub"):
                    return self.add(self.of(b[1]), self.of(b[2]), 1 if op == "fpadd" else -1)
                if op == "fpneg":
                    return self.scale(self.of(b[1]), -1)
                if op == "fpdiv2":
                    return self.scale(self.of(b[1]), pow(2, -1, self.p))
                if op == "corr":
                    return self.of(b[1])
                if op == "fpmul":
                    return self.mul(self.of(b[1]), self.of(b[2]))
                if op == "fpsqr":
                    return self.mul(self.of(b[1]), self.of(b[1]))
                if op == "fp2mul" or op == "fp2sqr":
                    a0, a1 = self.of(b[1]), self.of(b[2])
                    c0, c1 = (self.of(b[3]), self.of(b[4])) if op == "fp2mul" else (a0, a1)
                    if k[1] == 0:
                        return self.add(self.mul(a0, c0), self.mul(a1, c1), -1)
                    return self.add(self.mul(a0, c1), self.mul(a1, c0))
            except OverflowError:
                pass
        return self.leaf(t)

    # -- elements of GF(p^2) as pairs
    def of2(self, ts):
        return self.of(ts[0]), self.of(ts[1])

    def mul2(self, a, b):
        return (self.add(self.mul(a[0], b[0]), self.mul(a[1], b[1]), -1),
                self.add(self.mul(a[0], b[1]), self.mul(a[1], b[0])))

    def add2(self, a, b, s=1):
        return self.add(a[0], b[0], s), self.add(a[1], b[1], s)

    def zero2(self, a):
        return not a[0] and not a[1]

    def eq2(self, a, b):
        return a[0] == b[0] and a[1] == b[1]
