"""Abstract domain of point orders.

A point of a curve over GF(p^2) is abstracted to a multiple of a generator: (generator, j, k) stands for 2^j*3^k times the
generator, and a generator is described by the exact 2-part and 3-part of its order, whether its order has any other part,
and the point of order 2 (3) it lies above.  Points of order 2 (3) are determined by that class alone.  Field elements stay
symbolic: a point is (l*x : l) with indeterminates l, x (x is 0 for the point (0,0), l is 0 for the neutral element), curve
coefficients and isomorphism data are indeterminates, and identity of field elements is decided by polynomial identity testing.
"""
import hashlib
from . import ai, build, prims
from .ai import AV, G, Ptr, EMPTY, AnalysisError, State
from .prims import readn, padd, isnull


class Cut(Exception):
    """the scenario offers no further random point"""


class Gen:
    n = 0

    def __init__(self, curve, a, b, other=False, cls2=1, cls3=0, name=None):
        Gen.n += 1
        self.id = Gen.n
        self.curve = curve          # curve it was created on
        self.a, self.b, self.other, self.cls2, self.cls3 = a, b, other, cls2, cls3
        self.name = name or "P%d" % self.id


class Ring:
    """field elements by fingerprint: every indeterminate gets a pseudo-random value in GF(p), so that two rational
    expressions have the same fingerprint iff they are identical (up to a probability of about 1/p)"""

    def __init__(self, I, pr, dom):
        self.I, self.p, self.dom = I, pr.p, dom
        self.R = pow(2, 64 * pr.nw, pr.p)
        self.Ri = pow(self.R, -1, pr.p)
        self.memo = {}

    def const(self, c):
        return c % self.p

    def add2(self, a, b, s=1):
        return (a[0] + s * b[0]) % self.p, (a[1] + s * b[1]) % self.p

    def mul2(self, a, b):
        return (a[0] * b[0] - a[1] * b[1]) % self.p, (a[0] * b[1] + a[1] * b[0]) % self.p

    def inv2(self, a):
        n = (a[0] * a[0] + a[1] * a[1]) % self.p
        if n == 0:
            return (0, 0)
        n = pow(n, -1, self.p)
        return a[0] * n % self.p, -a[1] * n % self.p

    def zero2(self, a):
        return a == (0, 0)

    def eq2(self, a, b):
        return a == b

    def leafval(self, t):
        h = b""
        i = 0
        while len(h) < 112:
            h += hashlib.sha512(("%r/%d" % (self.name(t), i)).encode()).digest()
            i += 1
        return int.from_bytes(h, "big") % self.p

    def name(self, t):
        return t

    def of(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._of(t)
        return r

    def _of(self, t):
        T = self.I.T
        k = T.rev[t]
        if k[0] == "c":
            return k[1] * self.Ri % self.p
        if k[0] == "o":
            b = T.rev[k[2]]
            op = b[0]
            of = self.of
            if op == "gp":
                return self.dom.comp(b, k[1], self)
            if op in ("fpadd", "fpsub"):
                return (of(b[1]) + (1 if op == "fpadd" else -1) * of(b[2])) % self.p
            if op == "fpneg":
                return -of(b[1]) % self.p
            if op == "fpdiv2":
                return of(b[1]) * pow(2, -1, self.p) % self.p
            if op == "corr":
                return of(b[1])
            if op == "fpmul":
                return of(b[1]) * of(b[2]) % self.p
            if op == "fpsqr":
                return of(b[1]) ** 2 % self.p
            if op == "fpinv":
                return pow(of(b[1]), -1, self.p) if of(b[1]) else 0
            if op in ("fp2mul", "fp2sqr"):
                x = of(b[1]), of(b[2])
                return self.mul2(x, (of(b[3]), of(b[4])) if op == "fp2mul" else x)[k[1]]
            if op == "fp2inv":
                return self.inv2((of(b[1]), of(b[2])))[k[1]]
        return self.leafval(t)


class Dom:
    """one scenario: draws = list of generator descriptions handed out by random_point"""

    def __init__(self, bits, threading=True, kind="poik", extra=None):
        self.pr = prims.P(bits)
        self.mods = build.lib(bits, kind, threading=threading)
        self.problems = []
        self.draws = []
        self.drawn = []
        self.lam = 0
        self.mode = 0
        self.curves = []            # (a24p poly pair, c24 poly pair, name)
        self.parent = {}            # curve -> (isomorphic base curve, r, u)
        self.images = {}            # curve -> (kernel element, stage number, degree prime)
        pp = {}
        for d in (prims.field(self.pr), prims.ct(), prims.libc()):
            pp.update(d)
        self.fieldcorr = pp["fpcorrection%d" % bits]
        pp["fpcorrection%d" % bits] = self.correction
        pp.update(self.prims())
        if extra:
            pp.update(extra(self))
        self.I = ai.Interp(self.mods, pp, hooks=self)
        self.I.oracle = self.oracle
        self.R = Ring(self.I, self.pr, self)
        self.elems = {}
        self.coeffs = {}
        self.used = []              # (what, element, curve) in order
        self.memo = {}

    # hooks of the interpreter
    def problem(self, I, kind, ins, msg, **kw):
        if kind == "undef":
            return
        self.problems.append((kind, I.where(ins), msg))

    # ---- field leaves
    def leaf(self, *k):
        return self.I.T("leaf", *k)

    def leaf2(self, *k):
        return [self.leaf(*k, 0), self.leaf(*k, 1)]

    def av(self, t):
        return AV(0, (1 << 8 * self.pr.fe) - 1, EMPTY, t)

    def put2(self, st, p, ts, ins=None):
        for i, t in enumerate(ts):
            k = self.I.T.rev[t]
            self.I.write(st, padd(self.I, p, i * self.pr.fe), self.pr.fe, k[1] if k[0] == "c" else self.av(t), ins)

    def get2(self, st, p, ins=None):
        return [self.plain(st, v, ins) for v in readn(self.I, st, p, [self.pr.fe] * 2, ins)]

    def plain(self, st, v, ins):
        v = self.I.prune(v, st.facts)
        t = self.I.term(v) if type(v) is not G else None
        if t is None:
            t = self.I.T.fresh("garbage")
        return t

    def poly2(self, ts):
        return self.R.of(ts[0]), self.R.of(ts[1])

    # ---- curves
    def newcurve(self, a24p, c24, name):
        self.curves.append((a24p, c24, name))
        return len(self.curves) - 1

    def findcurve(self, a24p, c24):
        R = self.R
        if R.zero2(c24):
            return None
        for i, (a, c, _) in enumerate(self.curves):
            if R.eq2(R.mul2(a24p, c), R.mul2(a, c24)):
                return i
        return None

    def const2(self, c):
        return self.R.const(c), 0

    def curve_AC(self, A, C, name="E"):
        """register a curve from terms of A and C"""
        a, c = self.poly2(A), self.poly2(C)
        two = self.R.add2(c, c)
        return self.newcurve(self.R.add2(a, two), self.R.add2(two, two), name)

    # ---- elements: (gen, j, k, curve)
    def order(self, e):
        """(2-part, 3-part, other)"""
        g, j, k, c = e
        a, b = g.a, g.b
        s = c
        while s != g.curve and (s in self.parent or s in self.images):
            if s in self.parent:
                s = self.parent[s][0]
                continue
            ker, l, n = self.images[s][:3]
            if ker[0] is g:
                if l == 2:
                    a = a - n
                else:
                    b = b - n
            s = self.images[s][3]
        return max(0, a - j), max(0, b - k), g.other

    def iszero(self, e):
        a, b, o = self.order(e)
        return a == 0 and b == 0 and not o

    def key(self, e):
        g, j, k, c = e
        a, b, o = self.order(e)
        if not o and (a, b) == (1, 0):
            return ("T2", g.cls2 if self.stagebase(c) == self.stagebase(g.curve) else ("img", g.id), self.stagebase(c))
        if not o and (a, b) == (0, 1):
            return ("T3", g.cls3 if self.stagebase(c) == self.stagebase(g.curve) else ("img", g.id), self.stagebase(c))
        return ("pt", g.id, j, k, self.stagebase(c))

    def stagebase(self, c):
        while c in self.parent:
            c = self.parent[c][0]
        return c

    def xpoly(self, e):
        """x-coordinate of a non-zero element on its curve"""
        c = e[3]
        base = self.key(e)
        if base[0] == "T2" and base[1] == 0:
            x = (0, 0)
        else:
            x = self.poly2(self.leaf2("x", base))
        # apply the isomorphisms from the base model
        chain = []
        while c in self.parent:
            chain.append(self.parent[c])
            c = self.parent[c][0]
        num, den = x, self.const2(1)
        for _, r, u in reversed(chain):
            # x -> (x-r)/u
            num = self.R.add2(num, self.R.mul2(r, den), -1)
            den = self.R.mul2(den, u)
        return num, den

    def comp(self, b, i, R):
        """component i of a generic point term ("gp", element id, lambda id)"""
        e = self.elem_by_id[b[1]]
        lam = self.lampoly(b[2])
        if self.iszero(e):
            v = lam if i < 2 else (0, 0)
        else:
            num, den = self.xpoly(e)
            v = R.mul2(lam, num) if i < 2 else R.mul2(lam, den)
        return v[i % 2]

    def lampoly(self, n):
        if n == 0:
            return self.const2(1)
        l = self.poly2(self.leaf2("l", n))
        if self.mode == 1:
            return 0, l[1]
        if self.mode == 2:
            return l[0], 0
        return l

    elem_by_id = None

    def eid(self, e):
        if self.elem_by_id is None:
            self.elem_by_id = []
            self.eids = {}
        if e not in self.eids:
            self.eids[e] = len(self.elem_by_id)
            self.elem_by_id.append(e)
        return self.eids[e]

    def point(self, e, lam=None):
        """terms of a fresh projective representation"""
        if lam is None:
            self.lam += 1
            lam = self.lam
        t = self.I.T("gp", self.eid(e), lam)
        return [self.I.T("o", i, t) for i in range(4)]

    def putpt(self, st, p, e, ins=None, lam=None):
        for i, t in enumerate(self.point(e, lam)):
            # (lam = 0: affine, with literal zero and one) a zero among computed components may be represented by 0 or by p
            v = self.R.of(t) if lam == 0 else 1
            self.I.write(st, padd(self.I, p, i * self.pr.fe), self.pr.fe, 0 if not v else self.av(t), ins)

    def garbage(self, st, p, why, ins):
        g = Gen(None, 3, 3, True, name="garbage")
        self.problems.append(("garbage", self.I.where(ins), why))
        for i in range(4):
            self.I.write(st, padd(self.I, p, i * self.pr.fe), self.pr.fe, self.av(self.I.T("leaf", "g", g.id, i)), ins)

    def getpt(self, st, p, ins, curve=None):
        """element of the point in memory, or None"""
        X, Z = self.get2(st, p, ins), self.get2(st, padd(self.I, p, 2 * self.pr.fe), ins)
        return self.recog(X, Z, curve)

    def recog(self, X, Z, curve=None):
        key = tuple(X + Z) + (curve,)
        if key in self.memo:
            return self.memo[key]
        r = self._recog(X, Z, curve)
        if r is not None:
            self.memo[key] = r
        return r

    def _recog(self, X, Z, curve):
        ks = [self.I.T.rev[t] for t in X + Z]
        base = {k[2] for k in ks if k[0] == "o"}
        if len(base) == 1:
            b = self.I.T.rev[next(iter(base))]
            if b[0] == "gp" and all((k[0] == "o" and k[1] == i) or (k[0] == "c" and not self.R.of(self.I.T("o", i, next(iter(base)))))
                                    for i, k in enumerate(ks)):
                e = self.elem_by_id[b[1]]
                if curve is None or curve == e[3] or self.iszero(e):
                    return e
        x, z = self.poly2(X), self.poly2(Z)
        if self.R.zero2(z):
            # the neutral element: of whichever generator; none needed
            return ("O",)
        for e in list(self.elem_by_id or ()):
            for c in ([e[3]] if curve is None else [curve]):
                if c != e[3] and self.stagebase(c) != self.stagebase(e[3]):
                    continue
                f = (e[0], e[1], e[2], c)
                if self.iszero(f):
                    continue
                num, den = self.xpoly(f)
                if self.R.eq2(self.R.mul2(x, den), self.R.mul2(num, z)):
                    self.eid(f)
                    return f
        return None

    # ---- decisions
    def oracle(self, ta, tb):
        ka, kb = self.I.T.rev[ta], self.I.T.rev[tb]
        if ka[0] == "ext" and kb[0] == "ext" and ka[2:] == kb[2:]:
            r = self.R.of(ka[1]) == self.R.of(kb[1])
        else:
            r = self.R.of(ta) == self.R.of(tb)
        if r and not (self.canon(ta) and self.canon(tb)):
            return None             # equal modulo p, but the representations may differ
        return r

    def canon(self, t):
        """is the representation the unique one below p?"""
        k = self.I.T.rev[t]
        if k[0] == "ext":
            return self.canon(k[1])
        if k[0] == "c":
            return True
        return k[0] == "o" and self.I.T.rev[k[2]][0] == "corr"

    def correction(self, I, st, args, ins):
        x = I.prune(I.read(st, args[0], self.pr.fe, ins), st.facts)
        t = I.term(x) if type(x) is AV else None
        if t is not None and self.R.of(t) == 0:
            I.write(st, args[0], self.pr.fe, 0, ins)
        else:
            self.fieldcorr(I, st, args, ins)

    # ---- models
    def prims(self):
        d = {}
        fe = self.pr.fe

        def mul(op, esrc):
            def prim(I, st, args, ins):
                n = 1 if esrc is None else I.prune(args[esrc], st.facts)
                if type(n) is not int:
                    raise AnalysisError("number of doublings/triplings at " + I.where(ins))
                if n >> 31:
                    n = 0
                c1, c2 = self.poly2(self.get2(st, args[2], ins)), self.poly2(self.get2(st, args[3], ins))
                if op == "dbl":
                    c = self.findcurve(c1, c2)
                else:
                    c = self.findcurve(c2, self.R.add2(c2, c1, -1))
                if c is None:
                    return self.garbage(st, args[1], "curve constants do not belong to a curve in use", ins)
                e = self.getpt(st, args[0], ins, c)
                if e == ("O",):
                    for i in range(4):
                        I.write(st, padd(I, args[1], i * fe), fe, self.av(self.zeroterm()) if i > 1 else self.av(self.leaf("O", self.newlam(), i)), ins)
                    return None
                if e is None:
                    return self.garbage(st, args[1], "the point is not a known point of the curve whose constants are used", ins)
                self.used.append((op, n, e, c, I.where(ins)))
                r = (e[0], e[1] + (n if op == "dbl" else 0), e[2] + (n if op == "tpl" else 0), c)
                self.putpt(st, args[1], r, ins)
            return prim
        d["xDBL"], d["xDBLe"] = mul("dbl", None), mul("dbl", 4)
        d["xTPL"], d["xTPLe"] = mul("tpl", None), mul("tpl", 4)

        def random_point(I, st, args, ins):
            A = self.poly2(self.get2(st, args[0], ins))
            c = self.findcurve(self.R.add2(A, self.const2(2)), self.const2(4))
            if c is None:
                # a random point of a curve given by another representative
                return self.garbage(st, args[1], "random point on a curve not in use", ins)
            if len(self.drawn) >= len(self.draws):
                raise Cut()
            ds = self.draws[len(self.drawn)]
            if ds.get("cls3") == "K":
                ds = dict(ds, cls3=("img", self.kid))       # above the same point of order 3 as the kernel carried along
            g = Gen(c, name="draw%d" % (len(self.drawn) + 1), **ds)
            self.drawn.append(g)
            self.putpt(st, args[1], (g, 0, 0, c), ins, lam=0)
        d["random_point"] = random_point

        def all_models(I, st, args, ins):
            A, C = self.poly2(self.get2(st, args[0], ins)), self.poly2(self.get2(st, padd(I, args[0], 2 * fe), ins))
            two = self.R.add2(C, C)
            c = self.findcurve(self.R.add2(A, two), self.R.add2(two, two))
            if c is None:
                self.problems.append(("garbage", I.where(ins), "models of a curve not in use"))
                c = self.newcurve(self.R.add2(A, two), self.R.add2(two, two), "?")
            one = I.T("c", self.R.R)
            zero = I.T("c", 0)
            base = self.stagebase(c)
            for i in range(6):
                if i == 0:
                    B = self.leaf2("A", c)
                    # A/C of the curve itself
                    Bp = self.poly2(B)
                    m = self.newcurve(self.R.add2(Bp, self.const2(2)), self.const2(4), "model 0 of %d" % c)
                    r, u = [zero, zero], [one, zero]
                    # same curve: x is kept
                else:
                    B = self.leaf2("B", c, i)
                    Bp = self.poly2(B)
                    m = self.newcurve(self.R.add2(Bp, self.const2(2)), self.const2(4), "model %d of %d" % (i, c))
                    if i == 1:
                        r, u = [zero, zero], [I.T("c", self.pr.p - self.R.R), zero]
                    else:
                        r = self.leaf2("x", ("T2", 1 + (i - 2) // 2, base)) if c == base else self.leaf2("r", c, i)
                        u = self.leaf2("u", c, i)
                self.parent[m] = (c, self.poly2(r), self.poly2(u))
                self.models.append((m, c, i))
                off = 6 * fe * i
                self.put2(st, padd(I, args[1], off), B, ins)
                self.put2(st, padd(I, args[1], off + 2 * fe), r, ins)
                self.put2(st, padd(I, args[1], off + 4 * fe), u, ins)
        d["all_models"] = all_models
        self.models = []

        def get_isog(l, n, ncoef):
            def prim(I, st, args, ins):
                e = self.getpt(st, args[0], ins)
                if e is None or e == ("O",):
                    self.problems.append(("kernel", I.where(ins), "the kernel point of a step is not a known point"))
                    k = I.T.fresh("badiso")
                    nc = None
                else:
                    o = self.order(e)
                    want = (n, 0, False) if l == 2 else (0, n, False)
                    if o != want:
                        self.problems.append(("kernel", I.where(ins), "a degree-%d step is taken with a point of order 2^%d*3^%d%s" %
                                              (l ** n, o[0], o[1], "*more" if o[2] else "")))
                    if l == 2 and self.cls00(e):
                        self.problems.append(("kernel", I.where(ins), "a 2-power step is taken with a kernel above (0,0), for which the formulas do not hold"))
                    k = I.T("isog", self.eid(e))
                c0, c1 = self.leaf2("n1", k), self.leaf2("n2", k)
                self.put2(st, args[1], c0, ins)
                self.put2(st, args[2], c1, ins)
                p0, p1 = self.poly2(c0), self.poly2(c1)
                if e is not None and e != ("O",):
                    nc = self.newcurve(p0, p1, "step") if l == 2 else self.newcurve(p1, self.R.add2(p1, p0, -1), "step")
                    self.images[nc] = (e, l, n, e[3])
                    self.isogs[k] = (e, nc)
                    self.steps.append((e, nc, I.where(ins)))
                for i in range(ncoef):
                    self.put2(st, padd(I, args[3], 2 * fe * i), self.leaf2("co", k, i), ins)
            return prim
        self.isogs = {}
        self.steps = []
        d["get_4_isog"] = get_isog(2, 2, 3)
        d["get_3_isog"] = get_isog(3, 1, 2)

        def get2(I, st, args, ins):
            d2 = get_isog(2, 1, 0)
            d2(I, st, [args[0], args[1], args[2], None], ins)
        d["get_2_isog"] = get2

        def eval_isog(ncoef):
            def prim(I, st, args, ins):
                nc = None
                if ncoef:
                    ks = set()
                    for i in range(ncoef):
                        for j, t in enumerate(self.get2(st, padd(I, args[1], 2 * fe * i), ins)):
                            kk = I.T.rev[t]
                            ks.add(kk[2] if kk[0] == "leaf" and kk[1] == "co" and kk[3:] == (i, j) else None)
                    if len(ks) == 1 and None not in ks:
                        nc = self.isogs.get(ks.pop())
                else:
                    s = self.getpt(st, args[1], ins)
                    for kk, v in self.isogs.items():
                        if v[0] == s:
                            nc = v
                if nc is None:
                    return self.garbage(st, args[0], "isogeny coefficients do not come from one step", ins)
                ker, cv = nc
                e = self.getpt(st, args[0], ins, ker[3])
                if e is None or e == ("O",):
                    return self.garbage(st, args[0], "the point evaluated does not lie on the domain of the step", ins)
                r = (e[0], e[1], e[2], cv)
                kills = self.dependent(ker, e)
                self.evals.append((e, cv, kills))
                self.putpt(st, args[0], r, ins)
            return prim
        self.evals = []
        d["eval_4_isog"] = eval_isog(3)
        d["eval_3_isog"] = eval_isog(2)
        d["eval_2_isog"] = eval_isog(0)
        return d

    def zeroterm(self):
        """a computed zero: 0 or p"""
        t = self.leaf("O", self.newlam(), "z")
        return self.I.T("o", 0, self.I.T("fpsub", t, t))

    def newlam(self):
        self.lam += 1
        return self.lam

    def cls00(self, e):
        """does the 2-power point e lie above (0,0) of its own model?"""
        g = e[0]
        c = e[3]
        if g.cls2 is None:
            return False
        if self.stagebase(c) != self.stagebase(g.curve):
            return False            # after a step: only the dual direction is above (0,0); cyclic walks never are
        t = self.torsion2(e)
        num, _ = self.xpoly(t)
        return self.R.zero2(num)

    def torsion2(self, e):
        a, b, o = self.order(e)
        return (e[0], e[1] + a - 1, e[2], e[3])

    def dependent(self, ker, e):
        """is e a multiple of the kernel generator (or does it lie above the same point of prime order)?"""
        k1, k2 = self.key(ker), self.key(e)
        return k1 == k2

    def run(self, fname, args, st):
        return self.I.run(fname, args, st)
