"""Obligations on every accepting outcome of Verify (shared by C01..C04)."""
from . import ai, poly
from .ai import AV, G, Ptr, EMPTY
from .vrun import VRun, TAGS

KINDS = ("left", "bottom", "right")
SIDE = {"left": "B", "right": "B", "bottom": "A"}


class VF:
    def __init__(self, r):
        self.r, self.I = r, r.I
        self.lay = r.lay
        self.acc = r.accepting()
        self.ring = poly.Ring(self.I, r.pr)
        self.memo = {}

    def where(self):
        return "poik.c Verify (P%d%s)" % (self.r.pr.bits, ", threads" if self.r.threading else "")

    def ent(self, base, assumed, clause):
        return self.r.prover.entails(base, assumed, clause)

    def tag(self, i, k):
        return [self.r.taglit[i, k]]

    def start(self, i, k):
        off = {"left": self.lay.E0, "right": self.lay.E1, "bottom": None}[k]
        return self.lay.r(i, "bottom", "E2") if off is None else off

    def chain(self, i, k):
        """[(curve term, kernel term, iso term)] of the walk the response announces"""
        if (i, k) in self.memo:
            return self.memo[i, k]
        T = self.I.T
        s = SIDE[k]
        e = self.r.curve(self.start(i, k))
        out = []
        for j in range(self.lay.fields[k]["chain#"]):
            kp = self.r.kpoint(self.lay.r(i, k, "chain", j))
            iso = T("iso" + s, e, kp)
            out.append((e, kp, iso))
            cod = T("cod", iso)
            cn = T("canon", T("cv4", *[T("o", q, cod) for q in range(4)]))
            e = T("cv4", T("o", 0, cn), T("o", 1, cn), self.r.one(), T("c", 0))
        self.memo[i, k] = out
        return out

    def stepatom(self, i, k, j):
        e, kp, iso = self.chain(i, k)[j]
        return self.I.A.tab.get(("step" + SIDE[k], e, kp))

    def pushes(self, i, k):
        """final images of the backtracking point, following the model changes exactly (projectively)"""
        T = self.I.T
        ch = self.chain(i, k)
        b = T.tab.get(("back", ch[0][2]))
        if b is None:
            return []
        cur = [b]
        if not hasattr(self, "pushidx"):
            self.pushidx = {}
            for key, t in T.tab.items():
                if key[0] == "push":
                    self.pushidx.setdefault(key[1], []).append((key[2], t))
        for j in range(1, len(ch)):
            nxt = []
            cod = T("cod", ch[j - 1][2])
            cn = T("canon", T("cv4", *[T("o", q, cod) for q in range(4)]))
            r = [T("o", 2, cn), T("o", 3, cn)]
            u = [T("o", 4, cn), T("o", 5, cn)]
            R = self.ring
            for pt, t in self.pushidx.get(ch[j][2], ()):
                c = T.rev[pt][1:]
                for b in cur:
                    X = R.of2([T("o", 0, b), T("o", 1, b)])
                    Z = R.of2([T("o", 2, b), T("o", 3, b)])
                    wx = R.add2(X, R.mul2(R.of2(r), Z), -1)
                    wz = R.mul2(R.of2(u), Z)
                    gx, gz = R.of2(c[0:2]), R.of2(c[2:4])
                    try:
                        same = R.eq2(R.mul2(wx, gz), R.mul2(wz, gx)) and not R.zero2(gz)
                    except OverflowError:
                        same = False
                    if same:
                        nxt.append(t)
                        break
            cur = nxt
        return cur

    def zeq(self, t, k):
        """literals stating component k of point term t is zero (corrected or not)"""
        T, I = self.I.T, self.I
        out = []
        o = T("o", k, t)
        for x in (o, T.tab.get(("o", 0, T.tab.get(("corr", o))))):
            if x is not None:
                l = I.eqatom(x, T("c", 0))
                if type(l) is int:
                    out.append(l)
        return out

    def bitalts(self, v, base, assumed=()):
        """alternatives of a guarded value that are possible under base+assumed"""
        if type(v) is not G:
            return [v]
        out = []
        for g, x in v.alts:
            if self.r.prover.extend(base, list(assumed) + list(g)) is None:
                continue
            out.append(x)
        return out


def tags_ok(rep, vf):
    """C01: per repetition the response was examined and the tag equals the re-derived digit"""
    r, I, lay = vf.r, vf.I, vf.lay
    T = I.T
    trit = {}
    for ins, obj, off, cnt, nb, ts, k in r.tlog:
        full = T("trits", ts)
        for q in range(cnt):
            trit.setdefault(off + q, set()).add(T("trit", q, full))
    where = vf.where()
    for s, x, base in vf.acc:
        for g in s.ghost:
            rep.ok("no acceptance with unfinished or missing workers", g[0] == "short", where,
                   "Verify can return true although %s" % {"createfail": "a worker could not be started",
                                                           "joinfail": "a worker could not be waited for",
                                                           "live": "workers are still running"}.get(g[0], str(g)))
        for i in range(lay.reps):
            for k, v in TAGS:
                t = vf.tag(i, k)
                possible = r.prover.extend(base, t) is not None
                rep.count("repetition/kind pairs")
                if not possible:
                    rep.count("kinds never accepted")
                    continue
                n = lay.fields[k]["chain#"]
                ok = False
                for j in (n - 1, 0) + tuple(range(1, n - 1)):
                    a = vf.stepatom(i, k, j)
                    if a is not None and vf.ent(base, t, [a]):
                        ok = True
                        break
                if not rep.ok("every repetition is examined before acceptance", ok, where,
                              "repetition %d with response '%s' can be accepted without its walk having been checked" % (i, k)):
                    return
                lits = [l for l in (I.eqatom(c, T("c", v & 0xff)) for c in trit.get(i, ())) if type(l) is int]
                if not rep.ok("transmitted tag equals the re-derived challenge digit", any(vf.ent(base, t, [l]) for l in lits), where,
                              "repetition %d can be accepted with tag '%s' without the challenge digit at that position being %d" % (i, k, v if v < 2 else -1)):
                    return
            # unknown tags
            o = r.taglit[i, "other"]
            tt = T("in", "prf", lay.tagoff(i), lay.tagsize)
            cl = [l for l, c in tagcmp(I, tt) if c in (0, 1, 0xff, 0xffff, 0xffffffff, (1 << 64) - 1)]
            if not rep.ok("unknown response tags are rejected", vf.ent(base, [o], cl), where,
                          "repetition %d with a tag other than left/bottom/right can be accepted" % i):
                return


def tagcmp(I, t):
    """[(literal, constant)] of comparisons of (casts of) term t with constants"""
    if not hasattr(I, "_casts"):
        I._casts, I._cmps = {}, {}
        for key, x in I.T.tab.items():
            if key[0] in ("trunc", "zext", "sext", "ext", "freeze"):
                for y in key[1:]:
                    if isinstance(y, int):
                        I._casts.setdefault(y, []).append(x)
        for n, key in enumerate(I.A.rev):
            if n and key[0] == "eq":
                for p, q in ((key[1], key[2]), (key[2], key[1])):
                    k = I.T.rev[q]
                    if k[0] == "c":
                        I._cmps.setdefault(p, []).append((n, k[1]))
    k = I.T.rev[t]
    roots = {t} | {I.T.tab[q] for q in (("in", k[1], k[2], n) for n in (1, 2, 4, 8)) if q in I.T.tab}
    out, todo, seen = [], list(roots), set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        out += I._cmps.get(x, [])
        if x in roots or I.T.rev[x][0] in ("trunc", "zext", "sext", "ext", "freeze"):
            todo += [y for y in I._casts.get(x, []) if I.T.rev[y][0] == "ext" and I.T.rev[y][1] == x or I.T.rev[y][-1] == x]
    return out


def walks(rep, vf):
    """C02"""
    r, I, lay = vf.r, vf.I, vf.lay
    where = vf.where()
    for s, x, base in vf.acc[:1] if not rep.thorough else vf.acc:
        for i in range(lay.reps):
            for k in KINDS:
                t = vf.tag(i, k)
                if r.prover.extend(base, t) is None:
                    continue
                n = lay.fields[k]["chain#"]
                for j in range(n):
                    a = vf.stepatom(i, k, j)
                    if not rep.ok("every kernel point is checked on the curve reached so far", a is not None and vf.ent(base, t, [a]), where,
                                  "repetition %d, response '%s': acceptance does not require step %d of %d, starting from the %s, to pass the order check with the transmitted kernel point"
                                  % (i, k, j, n, {"left": "first statement curve", "right": "second statement curve", "bottom": "transmitted middle curve"}[k])):
                        return
                ok = False
                for p in vf.pushes(i, k):
                    z0, z1 = vf.zeq(p, 2), vf.zeq(p, 3)
                    for a in z0:
                        for b in z1:
                            if vf.ent(base, t, [-a, -b]):
                                ok = True
                if not rep.ok("the whole walk is shown not to backtrack", ok, where,
                              "repetition %d, response '%s': acceptance does not require the image of the backtracking point under the remaining steps to be non-zero" % (i, k)):
                    return


def certificates(rep, vf):
    """C03"""
    r, I, lay = vf.r, vf.I, vf.lay
    where = vf.where()
    for s, x, base in vf.acc:
        for nm, off in (("first statement curve", lay.E0), ("second statement curve", lay.E1)):
            a = I.A.tab.get(("ss", r.curve(off)))
            rep.ok("statement curves are certified", a is not None and vf.ent(base, [], [a]), where,
                   "Verify can accept without the %s having passed the supersingularity test" % nm)
        for i in range(lay.reps):
            t = vf.tag(i, "bottom")
            if r.prover.extend(base, t) is None:
                continue
            a = I.A.tab.get(("ss", r.curve(lay.r(i, "bottom", "E2"))))
            if not rep.ok("middle curves are certified", a is not None and vf.ent(base, t, [a]), where,
                          "repetition %d: a bottom response can be accepted without its middle curve having passed the supersingularity test" % i):
                return


def flags(rep, vf):
    """C01, threads: a verdict cell written by workers only ever receives one constant; the work counter only grows"""
    r, I, lay = vf.r, vf.I, vf.lay
    cells = {}
    for ins, p, v, op in r.hooks.wstores:
        if type(p) is not Ptr or p.obj.n > r.hooks.wbase:
            continue
        off = p.off if type(p.off) is int else "?"
        cells.setdefault((p.obj.n, p.obj.name, off), []).append((ins, v, op))
    rmw = {k for k, l in cells.items() if any(op == "atomicrmw" for _, _, op in l)}
    spread = {}
    for key, l in cells.items():
        for ins, v, op in l:
            spread.setdefault(id(ins), set()).add(key)
    for key, l in cells.items():
        rep.count("shared cells written by workers")
        if key in rmw:
            for ins, v, op in l:
                if op == "atomicrmw":
                    continue
                lo, hi = I.rng(v)
                rep.ok("the shared work counter never moves backwards", lo >= lay.reps and op == "store", I.where(ins),
                       "a worker stores a value that can be below the number of repetitions into the work counter")
            continue
        shared = [(ins, v) for ins, v, op in l if len(spread[id(ins)]) == 1]
        if shared:
            vals = {v if type(v) is int else (v.lo if type(v) is AV and v.lo == v.hi else None) for ins, v in shared}
            rep.ok("a verdict cell shared by workers only ever receives one constant", len(vals) == 1 and None not in vals, I.where(shared[0][0]),
                   "workers store %s into a cell shared by all workers, so a failure seen by one worker can be overwritten by another" %
                   ("a run-time value" if None in vals else sorted(vals)))


def concat(I, t):
    """[(size or None, term)] of a concatenation term"""
    k = I.T.rev[t]
    if k[0] == "cat":
        return [(k[q], k[q + 1]) for q in range(1, len(k), 2)]
    return [(None, t)]


def commit_ok(vf, t, rsrc, jcurve):
    """t is a hash of: constant domain tag, complete hiding string at proof offset rsrc, complete invariant of jcurve.
    returns (ok, domain constant, reason)"""
    I, lay, pr = vf.I, vf.lay, vf.r.pr
    T = I.T
    k = T.rev[t]
    if k[0] != "shake":
        return False, None, "is not a hash"
    ps = concat(I, k[3])
    roff, rlen = rsrc
    ji = T("jinv", *jcurve)
    want = {T("in", "prf", roff, rlen): "hiding string", T("enc", T("o", 0, ji)): "invariant (first half)", T("enc", T("o", 1, ji)): "invariant (second half)"}
    have = {}
    dom = None
    for n, x in ps:
        kk = T.rev[x]
        if kk[0] == "c":
            if dom is None and not have:
                dom = (n, kk[1])
        elif x in want:
            have[x] = n
    miss = [w for x, w in want.items() if x not in have]
    if miss:
        return False, dom, "does not contain the complete " + ", ".join(miss)
    return True, dom, k[1]


def final_curve(vf, i, k):
    T = vf.I.T
    iso = vf.chain(i, k)[-1][2]
    cod = T("cod", iso)
    return [T("o", q, cod) for q in range(4)]


def curve4(vf, off):
    T = vf.I.T
    a = vf.r.dec(off)
    return [a[0], a[1], vf.r.one(), T("c", 0)]


def hashes(rep, vf):
    """C04 on the verifier's side; returns the layout of the challenge input"""
    r, I, lay = vf.r, vf.I, vf.lay
    T = I.T
    where = vf.where()
    L = lay.L
    absorbs = [e for e in r.events if e[0] == "absorb"]
    if not rep.ok("one hash derives the challenge", len(absorbs) == 1, where, "%d absorb operations while re-deriving the challenge" % len(absorbs)):
        return None
    _, ins, sl, total, sponge, _ = absorbs[0]
    at = I.where(ins)
    s, x, base = vf.acc[0]
    j = {}
    for nm, off in (("j0", lay.E0), ("j1", lay.E1)):
        ji = T("jinv", *curve4(vf, off))
        for h in range(2):
            j[T("enc", T("o", h, ji))] = (nm, h)
    layout, doms, cdom = [], set(), None
    k0 = None
    pend = []
    hb = lay.fields["left"]["h3"][1]
    for o, n, v in sl:
        if type(v) is int:
            if o == 0:
                cdom = (n, v)
                layout.append((o, n, "const", v))
            else:
                layout.append((o, n, "const", v))
            continue
        if type(v) is not G and I.term(v) in j:
            layout.append((o, n, j[I.term(v)], None))
            continue
        pend.append((o, n, v))
    got = {q[2] for q in layout}
    for q in (("j0", 0), ("j0", 1), ("j1", 0), ("j1", 1)):
        rep.ok("both statement invariants enter the challenge in full", q in got, at, "invariant %s (half %d) is not part of the challenge input" % q)
    rep.ok("the challenge hash has a domain tag", cdom is not None, at, "the challenge input does not start with a constant domain tag")
    # commitments: every alternative of every remaining slice
    seen = {}
    for o, n, v in pend:
        role = None
        ok = True
        why = ""
        for i_hint in ([] if not seen else [max(seen) // 2, max(seen) // 2 + 1]) or [0]:
            pass
        # which repetition and side does this slice carry?  decide by the alternatives possible at acceptance
        cand = None
        for i in range(lay.reps):
            if 2 * i in seen and 2 * i + 1 in seen:
                continue
            for side in (0, 1):
                if 2 * i + side in seen:
                    continue
                good, dd, bad = slice_is(vf, base, v, n, i, side, hb)
                if good:
                    cand = (i, side)
                    doms |= dd
                    break
                ok, why = False, bad
            if cand or i > (max(seen) // 2 + 1 if seen else 0):
                break
        if cand is None:
            rep.ok("every absorbed commitment is complete", False, at, "bytes %d..%d of the challenge input: %s" % (o, o + n - 1, why))
            return None
        seen[2 * cand[0] + cand[1]] = True
        rep.ok("every absorbed commitment is complete", True, at, "")
        layout.append((o, n, ("h2", "h3")[cand[1]], cand[0]))
    for i in range(lay.reps):
        for side in (0, 1):
            if not rep.ok("both commitments of every repetition enter the challenge", 2 * i + side in seen, at,
                          "commitment %s of repetition %d is not part of the challenge input" % (("h2", "h3")[side], i)):
                return None
    for d in doms:
        bad = d is None or cdom is None or prefix(d, cdom)
        rep.ok("commitments and challenge use different domain tags", not bad, at, "domain tags %r (commitment) and %r (challenge) do not separate" % (d, cdom))
    # the digits come from this hash
    for e in r.tlog:
        t = e[5]
        while t is not None and T.rev[t][0] in ("block", "perm"):
            t = T.rev[t][1]
        rep.ok("challenge digits come from the challenge hash", t == sponge, I.where(e[0]), "digits are sampled from bytes that are not output of the challenge hash")
    return sorted(layout, key=lambda q: q[0]), doms, cdom, total


def prefix(a, b):
    """one constant byte string is a prefix of the other"""
    n = min(a[0], b[0])
    m = (1 << 8 * n) - 1
    return a[1] & m == b[1] & m


def slice_is(vf, base, v, n, i, side, hb):
    """slice v of the challenge input is commitment `side` (0: h2, 1: h3) of repetition i in every accepting case"""
    r, I, lay = vf.r, vf.I, vf.lay
    T = I.T
    doms = set()
    if n != hb:
        return False, doms, "%d bytes instead of a whole commitment of %d bytes" % (n, hb)
    for k in KINDS:
        t = vf.tag(i, k)
        if r.prover.extend(base, t) is None:
            continue
        for x in vf.bitalts(v, base, t):
            tm = I.term(x)
            raw = {("left", 1): "h3", ("right", 0): "h2"}.get((k, side))
            if raw:
                f = lay.fields[k][raw]
                if tm != T("in", "prf", lay.r(i, k, raw), f[1]):
                    return False, doms, "with response '%s' the commitment %s of repetition %d is not the transmitted one" % (k, ("h2", "h3")[side], i)
                continue
            rn = ("r2", "r3")[side]
            f = lay.fields[k][rn]
            cur = curve4(vf, lay.r(i, "bottom", "E2")) if (k, side) == ("bottom", 0) else final_curve(vf, i, k)
            ok, dom, why = commit_ok(vf, tm, (lay.r(i, k, rn), f[1]), cur)
            if not ok:
                return False, doms, "with response '%s' the commitment %s of repetition %d %s" % (k, ("h2", "h3")[side], i, why)
            if why != hb:
                return False, doms, "with response '%s' only %d of %d bytes of the commitment are hash output" % (k, why, hb)
            doms.add(dom)
    return True, doms, ""
