"""Bodies of the isogeny step, the point search and the order certificate, decided in the domain of point orders."""
import itertools
from .ai import Ptr, State, AnalysisError
from .orders import Dom, Gen, Cut


def truth(D, v):
    lo, hi = D.I.rng(v) if not isinstance(v, int) else (v, v)
    return None if lo == 0 and hi else bool(hi)


class Step:
    def __init__(self, bits, side, a, b, other, cls2, Q, back, draws=(), mode=0, alias=True, threading=True):
        D = self.D = Dom(bits, threading)
        D.mode = mode
        I, fe = D.I, D.pr.fe
        st = State()
        for n in "EFKQB":
            setattr(self, n, I.root(n, 4 * fe, "undef"))
        A, C = D.leaf2("A0"), D.leaf2("C0")
        D.put2(st, Ptr(self.E, 0), A)
        D.put2(st, Ptr(self.E, 2 * fe), C)
        c = D.curve_AC(A, C)
        self.k = Gen(c, a, b, other, cls2, 0, "K")
        D.putpt(st, Ptr(self.K, 0), (self.k, 0, 0, c), lam=0)
        D.kid = self.k.id
        self.q = Gen(c, D.pr.eA, D.pr.eB, False, 2, 1, "Q")
        D.putpt(st, Ptr(self.Q, 0), (self.q, 0, 0, c))
        D.draws = list(draws)
        self.out = self.E if alias else self.F
        self.cut = False
        try:
            self.outs = D.run("Isogeny_" + side, [Ptr(self.E, 0), Ptr(self.K, 0), Ptr(self.out, 0), Ptr(self.Q, 0) if Q else 0,
                                                  Ptr(self.B, 0) if back else 0], st)
        except Cut:
            self.cut = True
            self.outs = []
        self.accepted = [s for s, v in self.outs if truth(D, v) is not False]

    def codomain(self, s):
        D = self.D
        fe = D.pr.fe
        A = D.poly2(D.get2(s, Ptr(self.out, 0)))
        C = D.poly2(D.get2(s, Ptr(self.out, 2 * fe)))
        two = D.R.add2(C, C)
        return D.findcurve(D.R.add2(A, two), D.R.add2(two, two))


def step_cases(pr, side, thorough):
    top = pr.eA if side == "A" else pr.eB
    xs = range(0, top + 1) if thorough else sorted({0, 1, 2, 3, 4, top // 2, top - 3, top - 2, top - 1, top})
    for x in xs:
        for oth in ((0, False), (1, False), (2, False), (0, True), (1, True)):
            for cls in (0, 1, 2) if side == "A" else (1,):
                yield (x, oth[0], oth[1], cls) if side == "A" else (oth[0], x, oth[1], cls)


def steps(rep, bits, side, part=0, nparts=1):
    """C02: Isogeny_A / Isogeny_B"""
    pr = Dom(bits).pr
    what = "full-order"
    n = 0
    name = "poik.c Isogeny_%s (P%d)" % (side, bits)
    full = (pr.eA, 0, False) if side == "A" else (0, pr.eB, False)
    good = 0
    for a, b, oth, cls in step_cases(pr, side, rep.thorough):
        n += 1
        if n % nparts != part:
            continue
        is_full = (a, b, oth) == full
        for Q, back in ((True, False), (False, True), (True, True)) if is_full else ((False, True), (True, False)):
            for mode in (0, 1, 2):
                draws = [dict(a=pr.eA, b=0), dict(a=pr.eA, b=2, cls3='K'), dict(a=2, b=pr.eB, cls3='K'), dict(a=pr.eA, b=3, cls3=2)]
                S = Step(bits, side, a, b, oth, cls, Q, back, draws, mode, alias=(n + mode) % 2 == 0)
                D = S.D
                if S.cut:
                    rep.ok("the point that detects backtracking is found among suitable points", False, name, "a suitable random point is not used")
                    continue
                rep.count("step scenarios")
                if not is_full:
                    rep.ok("a kernel point of another order is refused", not S.accepted, name,
                           "accepts a kernel point of order 2^%d*3^%d%s%s" % (a, b, " times another factor" if oth else "",
                                                                              " above (0,0)" if side == "A" and cls == 0 else ""))
                    continue
                for s in S.accepted:
                    good += 1
                    check_step(rep, S, s, side, name, Q, back, pr)
    if part == 0 or good:
        rep.count("accepted full-order scenarios (%s)" % side, good)


def check_step(rep, S, s, side, name, Q, back, pr):
    D = S.D
    bad = [p for p in D.problems if p[0] in ("garbage", "kernel")]
    rep.ok("every part of a step works on the curve reached and on points of the right order", not bad,
           bad[0][1] if bad else name, "%s (Isogeny_%s)" % (bad[0][2] if bad else "", side))
    if bad:
        return
    steps = D.steps
    deg = sum(D.images[nc][2] for _, nc, _ in steps)
    rep.ok("the step is divided by the whole kernel", deg == (pr.eA if side == "A" else pr.eB) and all(e[0] is S.k for e, _, _ in steps), name,
           "the walk divides by a subgroup of order %d^%d only" % (2 if side == "A" else 3, deg))
    if not steps:
        return
    last = steps[-1][1]
    c = S.codomain(s)
    rep.ok("the curve handed on is the codomain of the step", c == last, name, "the resulting curve is not the codomain of the last part of the step")
    if Q:
        e = D.getpt(s, Ptr(S.Q, 0), None)
        rep.ok("the point carried along is mapped through the whole step", e is not None and e[0] is S.q and tuple(e[1:3]) == (0, 0) and e[3] == last, name,
               "the point carried along is not the image under the whole step")
    if back:
        X, Z = D.poly2(D.get2(s, Ptr(S.B, 0))), D.poly2(D.get2(s, Ptr(S.B, 2 * D.pr.fe)))
        if side == "A":
            ok = D.R.zero2(X) and not D.R.zero2(Z)
            rep.ok("the backtracking point generates the dual direction", ok, name, "the backtracking point is not (0,0), the point the dual of the last 4-isogeny divides by")
        else:
            e = D.getpt(s, Ptr(S.B, 0), None)
            ok = e is not None and e != ("O",) and e[3] == last and e[0] is not S.k and D.order(e)[2] is False and D.order(e)[:2] == (0, 1)
            msg = "the backtracking point is not the image of a point of order 3"
            if ok:
                # before the last part of the step: not in its kernel
                ker = steps[-1][0]
                ok = e[0].cls3 != ("img", S.k.id) and e[0].curve is not None and D.stagebase(e[0].curve) == D.stagebase(ker[3])
                msg = "the backtracking point comes from the kernel of the last 3-isogeny"
            rep.ok("the backtracking point generates the dual direction", ok, name, msg)


def points(rep, bits):
    """C02: random_point_with_order"""
    pr = Dom(bits).pr
    name = "poik.c random_point_with_order (P%d)" % bits
    for l in (2, 3):
        top = pr.eA if l == 2 else pr.eB
        for h in sorted({1, 2, 3, top // 2, top - 1, top}):
            for lead in (0, 1):
                D = Dom(bits)
                I, fe = D.I, D.pr.fe
                st = State()
                Ao, Po, Qo, eo = I.root("A", 2 * fe, "undef"), I.root("P", 4 * fe, "undef"), I.root("Q", 4 * fe, "undef"), I.root("e", 4, "undef")
                A = D.leaf2("A0")
                D.put2(st, Ptr(Ao, 0), A)
                D.curve_AC(A, [I.T("c", D.R.R), I.T("c", 0)])
                none = dict(a=0, b=5) if l == 2 else dict(a=5, b=0)
                D.draws = [none] * lead + [dict(a=h, b=7) if l == 2 else dict(a=7, b=h)]
                try:
                    outs = D.run("random_point_with_order", [Ptr(Ao, 0), l, Ptr(Po, 0), Ptr(eo, 0), Ptr(Qo, 0)], st)
                except Cut:
                    rep.violation("random points of known order", name, "a suitable random point is not used")
                    continue
                rep.count("point scenarios")
                for s, _ in outs:
                    e = I.read(s, Ptr(eo, 0), 4)
                    P, Q = D.getpt(s, Ptr(Po, 0), None), D.getpt(s, Ptr(Qo, 0), None)
                    want = (h, 0, False) if l == 2 else (0, h, False)
                    one = (1, 0, False) if l == 2 else (0, 1, False)
                    ok = P is not None and Q is not None and P != ("O",) and Q != ("O",) and D.order(P) == want and D.order(Q) == one and e == h and P[0] is Q[0]
                    rep.ok("random points are returned with their exact order and the point of prime order below them", ok, name,
                           "l=%d, order %d^%d: point %s, announced exponent %r" % (l, l, h, P, e))


def walkpoints(rep, bits):
    """C05: the kernel points of a random walk are points drawn for this step, of full order and not in the direction to avoid"""
    pr = Dom(bits).pr
    for side, l in (("A", 2), ("B", 3)):
        name = "poik.c Random_Point_%s (P%d)" % (side, bits)
        top = pr.eA if l == 2 else pr.eB
        for lead in (0, 1, 2):
            for avoid in (False, True):
                D = Dom(bits)
                I, fe = D.I, D.pr.fe
                st = State()
                Eo, Po, Vo = I.root("E", 4 * fe, "undef"), I.root("P", 4 * fe, "undef"), I.root("V", 4 * fe, "undef")
                A, C = D.leaf2("A0"), D.leaf2("C0")
                D.put2(st, Ptr(Eo, 0), A)
                D.put2(st, Ptr(Eo, 2 * fe), C)
                c = D.curve_AC(A, C)
                v = Gen(c, 1 if l == 2 else 0, 0 if l == 2 else 1, False, 2, 7, "avoid")
                D.putpt(st, Ptr(Vo, 0), (v, 0, 0, c))
                bad = [dict(a=top - 1, b=3, cls2=1), dict(a=top, b=2, cls2=2)] if l == 2 else [dict(a=3, b=top - 1, cls3=0), dict(a=2, b=top, cls3=7)]
                if not avoid:
                    bad = bad[:1]
                good = dict(a=top, b=4, cls2=1) if l == 2 else dict(a=4, b=top, cls3=1)
                D.draws = [bad[k % len(bad)] for k in range(lead)] + [good]
                try:
                    outs = D.run("Random_Point_" + side, [Ptr(Eo, 0), Ptr(Po, 0), Ptr(Vo, 0) if avoid else 0], st)
                except Cut:
                    rep.violation("walk points are fresh, of full order and avoid the way back", name, "a suitable random point is not used")
                    continue
                rep.count("walk point scenarios")
                for s, _ in outs:
                    P = D.getpt(s, Ptr(Po, 0), None)
                    ok = P is not None and P != ("O",) and P[0] is D.drawn[-1] and D.order(P) == ((top, 0, False) if l == 2 else (0, top, False)) and len(D.drawn) == lead + 1
                    rep.ok("walk points are fresh, of full order and avoid the way back", ok, name,
                           "after %d unsuitable draws%s the point returned is %s" % (lead, " with a direction to avoid" if avoid else "", P if P is None or P == ("O",) else (P[0].name, D.order(P))))


# ------------------------------------------------------------------ the certificate
def certificate(bits, draws, mode=0):
    D = Dom(bits)
    D.mode = mode
    I, fe = D.I, D.pr.fe
    st = State()
    E = I.root("E", 4 * fe, "undef")
    A, C = D.leaf2("A0"), [I.T("c", D.R.R), I.T("c", 0)]
    D.put2(st, Ptr(E, 0), A)
    D.put2(st, Ptr(E, 2 * fe), C)
    D.curve_AC(A, C)
    D.draws = list(draws)
    try:
        outs = D.run("Check_Curve", [Ptr(E, 0)], st)
    except Cut:
        return D, None
    r = [truth(D, v) for _, v in outs]
    return D, (any(x is not False for x in r) if r else False)


def proven(pr, gens):
    """(v2, v3): the largest 2- and 3-part of the group order that the points examined prove"""
    v2 = max([g.a for g in gens] + [x.a + y.a for x, y in itertools.combinations(gens, 2) if x.a and y.a and x.cls2 != y.cls2] + [0])
    v3 = max([g.b for g in gens] + [x.b + y.b for x, y in itertools.combinations(gens, 2) if x.b and y.b and x.cls3 != y.cls3] + [0])
    return v2, v3


def judge(rep, bits, draws, D, yes, name):
    rep.count("certificate scenarios")
    bad = [p for p in D.problems if p[0] == "garbage"]
    rep.ok("the certificate works on the curve in question", not bad, bad[0][1] if bad else name, bad[0][2] if bad else "")
    if not yes:
        return
    gens = D.drawn
    txt = ", ".join("2^%d*3^%d%s above (%s,%s)" % (g.a, g.b, "*more" if g.other else "", g.cls2, g.cls3) for g in gens)
    rep.ok("every point counted is annihilated by p+1", not any(g.other for g in gens), name, "accepts although a point is not annihilated by p+1: points of order " + txt)
    if any(g.other for g in gens):
        return
    v2, v3 = proven(D.pr, gens)
    rep.ok("acceptance means a proven group order above 4p", 2 ** v2 * 3 ** v3 > 4 * D.pr.p, name,
           "accepts with a proven order of only 2^%d*3^%d; points of order %s" % (v2, v3, txt))


def certificates(rep, bits, kind, part=0, nparts=1):
    """C03: Check_Curve"""
    pr = Dom(bits).pr
    a, b = pr.eA, pr.eB
    name = "poik.c Check_Curve (P%d)" % bits
    n = 0
    yes = 0
    if kind == "threshold":
        # two independent points whose product of orders is close to the bound
        xs = range(0, 2 * b + 1) if rep.thorough else sorted({0, 1, b // 2, b - 1, b, b + 1, b + b // 3, 2 * b - 7, 2 * b - 1, 2 * b} |
                                                            {2 * b * k // 9 for k in range(10)})
        for v3 in xs:
            v2 = 0
            while 2 ** v2 * 3 ** v3 <= 4 * pr.p:
                v2 += 1
            for d in (-3, -2, -1, 0, 3):
                w = v2 + d
                if not 0 <= w <= 2 * a:
                    continue
                n += 1
                if n % nparts != part:
                    continue
                for sw in (0, 1):
                    d1 = dict(a=(w + 1) // 2, b=(v3 + 1) // 2, cls2=1, cls3=0)
                    d2 = dict(a=w // 2, b=v3 // 2, cls2=2, cls3=1)
                    if w <= a and sw:
                        d1["a"], d2["a"] = w, 0
                    if v3 <= b and sw:
                        d1["b"], d2["b"] = 0, v3
                    D, r = certificate(bits, [d1, d2])
                    judge(rep, bits, (d1, d2), D, r, name)
                    yes += bool(r)
    else:
        small = [(0, 0), (a, b), (a, 0), (a - 1, b)]
        more = [(1, 1), (0, b), (1, b), (a, 1)]
        p1 = small + more
        depth = 3 if kind == "three" else 2
        base = small if depth == 3 and not rep.thorough else p1
        for x, y in base if depth == 3 else p1:
            d1 = dict(a=x, b=y, cls2=1, cls3=0)
            for oth in (False, True):
                if oth and depth == 3:
                    continue
                D, r = certificate(bits, [dict(d1, other=oth)])
                if part == 0 and depth == 2:
                    judge(rep, bits, None, D, r, name)
                if r is not None:
                    continue
                for (x2, y2), c2, c3, o2 in itertools.product(base, (1, 2), (0, 1), (False, True)):
                    if o2 and depth == 3:
                        continue
                    n += 1
                    if n % nparts != part:
                        continue
                    d2 = dict(a=x2, b=y2, cls2=c2, cls3=c3, other=o2)
                    D, r = certificate(bits, [d1, d2], mode=n % 3)
                    judge(rep, bits, None, D, r, name)
                    yes += bool(r)
                    if r is not None or depth == 2:
                        continue
                    for (x3, y3), c2, c3 in itertools.product(small, (1, 2), (0, 1)):
                        d3 = dict(a=x3, b=y3, cls2=c2, cls3=c3)
                        D, r = certificate(bits, [d1, d2, d3])
                        judge(rep, bits, None, D, r, name)
                        yes += bool(r)
    rep.count("accepting certificate scenarios", yes)
