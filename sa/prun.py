"""Abstract run of Prove: labels of everything written into the proof, hash input of the challenge."""
from . import build, ai, prims, proto, layout
from .ai import AV, G, Ptr, EMPTY, AnalysisError, State
from .prims import padd, uf, readn
from .vrun import Hooks, threads, TAGS


class Inst:
    """layout of struct instance / struct commitment1"""

    def __init__(self, mod, pr):
        L = self.L = layout.Layout(mod)
        self.isize = L.size(L.by_name("instance"))
        self.csize = L.size(L.by_name("commitment1"))
        self.ifields = [(n, o, L.size(t)) for n, o, t in L.members(L.by_name("instance"))]
        self.cfields = [(n, o, L.size(t)) for n, o, t in L.members(L.by_name("commitment1"))]


def draws(log):
    """randombytes with one label per draw"""
    def prim(I, st, args, ins):
        n = I.prune(args[1], st.facts)
        ok = I.A.fresh("rng-ok")
        s2 = st.fork()
        I.assume(st, [ok])
        I.assume(s2, [-ok])
        k = len(log)
        t = I.T.fresh("rnd")
        log.append((ins, n, t))
        if type(n) is not int:
            raise AnalysisError("length of a random draw at " + I.where(ins))
        I.write(st, args[0], n, AV(0, (1 << 8 * n) - 1, frozenset([("rnd", k)]), t), ins)
        return [(st, 0), (s2, 1)]
    return prim


def digits(log):
    """sample_ternary delivering all digits: every digit one of the three values, under a literal of its own"""
    def prim(I, st, args, ins):
        by, nb, tr, nt = args
        nb, cv, tr = I.prune(nb, st.facts), I.prune(nt, st.facts), I.prune(tr, st.facts)
        if type(tr) is not Ptr or type(tr.off) is not int or type(cv) is not int or type(nb) is not int:
            raise AnalysisError("sample_ternary arguments at " + I.where(ins))
        src = I.read(st, by, nb, ins)
        log.append((ins, tr.obj, tr.off, cv, nb, I.term(src), 0))
        for q in range(cv):
            ls = [I.A("ch", tr.off + q, k) for k, _ in TAGS]
            for l in ls:
                I.A.impl[l] = frozenset(-m for m in ls if m != l)
            I.write(st, Ptr(tr.obj, tr.off + q), 1, G(tuple((frozenset([l]), v & 255) for l, (k, v) in zip(ls, TAGS))), ins)
        return [(st, cv)]
    return prim


def ladder(pr, log):
    """Ladder(P, m, A, bits, R): scalar multiple; remembers the scalars"""
    fe = pr.fe
    nb = 8 * ((pr.bits and {434: 4, 503: 4, 610: 5, 751: 6}[pr.bits]))
    f = uf("ladder", [(0, [fe] * 4), (1, [8] * (nb // 8)), (2, [fe] * 2)], [(4, [fe] * 4)])

    def prim(I, st, args, ins):
        log.append((ins, readn(I, st, args[1], [8] * (nb // 8), ins)))
        return f(I, st, args, ins)
    return prim


class PRun:
    def __init__(self, bits, threading=True):
        self.pr = prims.P(bits)
        self.bits, self.threading = bits, threading
        self.mods = build.lib(bits, "poik", threading=threading)
        self.lay = layout.Proof(self.mods[0])
        self.inst = Inst(self.mods[0], self.pr)
        self.events, self.tlog, self.rnd = [], [], []
        self.hooks = Hooks()
        self.calls = []
        pr, fe = self.pr, self.pr.fe
        pp = {}
        for d in (prims.field(pr), prims.curve(pr), prims.ct(), prims.libc(), prims.hashing(self.events), proto.protocol(pr), threads(self.hooks)):
            pp.update(d)
        pp["sample_ternary"] = digits(self.tlog)
        pp["randombytes"] = draws(self.rnd)
        self.scalars = []
        pp["Ladder"] = ladder(pr, self.scalars)
        pp["Instance"] = self.instance
        names = self.mods[0].funcs
        self.missing = [n for n in ("Instance", "canonical_model", "sample_ternary", "Ladder") if n not in names]
        I = self.I = ai.Interp(self.mods, pp, hooks=self.hooks)
        L = self.lay.L
        self.secsize = L.size(L.by_name("secret"))
        self.secE, et = L.field("secret", "E")
        self.width = L.array(et)[1] - 1
        self.public = (self.secE // pr.enc, self.secE // pr.enc + self.width)
        self.sec = I.root("sec", self.secsize, lambda I_, o, off, n: I_.input("sec", off, n, frozenset([("sec", off // pr.enc)])))
        self.prf = I.root("proof", self.lay.size, "undef")
        self.outs = I.run("Prove", [Ptr(self.sec, 0), Ptr(self.prf, 0)], State())

    def instance(self, I, st, args, ins):
        v, c = I.prune(args[1], st.facts), I.prune(args[2], st.facts)
        if type(v) is not Ptr or type(c) is not Ptr or type(v.off) is not int or type(c.off) is not int:
            raise AnalysisError("arguments of Instance at " + I.where(ins))
        i = len(self.calls)
        self.calls.append((v.obj, v.off, c.obj, c.off, I.where(ins)))
        fe = self.pr.fe
        for n, o, s in self.inst.ifields:
            step = fe if n not in ("r2", "r3") else s
            for q in range(0, s, step):
                I.write(st, Ptr(v.obj, v.off + o + q), step, AV(0, (1 << 8 * step) - 1, frozenset([(n, i)]), I.T("inst", i, n, q)), ins)
        for n, o, s in self.inst.cfields:
            I.write(st, Ptr(c.obj, c.off + o), s, AV(0, (1 << 8 * s) - 1, frozenset([(n, i)]), I.T("comm", i, n)), ins)
        return None




# ------------------------------------------------------------------ rules over the run of Prove
# the commitments h2, h3 are public in every case; E2 and E3 are the ends of the opened walks
ALLOWED = {"left": {"r2", "left", "E2", "h2", "h3"}, "bottom": {"r2", "r3", "E2", "E3", "bottom", "h2", "h3"}, "right": {"r3", "right", "E3", "h2", "h3"}}
FIELD = {("left", "r2"): "r2", ("left", "h3"): "h3", ("left", "chain"): "left", ("bottom", "r2"): "r2", ("bottom", "r3"): "r3", ("bottom", "E2"): "E2",
         ("bottom", "chain"): "bottom", ("right", "h2"): "h2", ("right", "r3"): "r3", ("right", "chain"): "right"}


def alts(I, pv, base, v, extra):
    """values v may have under base and the additional literals"""
    return [x for g, x in (v.alts if type(v) is G else ((EMPTY, v),)) if pv.extend(base, list(extra) + list(g)) is not None]


def responses(rep, r):
    """C05: what a response of each kind depends on"""
    I, lay, pr = r.I, r.lay, r.pr
    name = "poik.c Prove (P%d%s)" % (pr.bits, ", threads" if r.threading else "")
    rets = [s for s, v in r.outs]
    if not rep.ok("Prove returns", bool(rets), name, "no path of Prove returns"):
        return
    reps = range(lay.reps)
    rep.ok("one instance per repetition", len({(c[0], c[1]) for c in r.calls}) == lay.reps and len({(c[2], c[3]) for c in r.calls}) == lay.reps, name,
           "%d distinct instances and %d distinct commitments for %d repetitions" % (len({(c[0], c[1]) for c in r.calls}), len({(c[2], c[3]) for c in r.calls}), lay.reps))
    order = {c[3]: k for k, c in enumerate(r.calls)}
    seq = [order[o] for o in sorted(order)]      # call number of the instance committed at position i
    if len(seq) != lay.reps:
        return
    used = {}
    pv = I.prover()
    for s in rets:
        pb = pv.base(set(s.facts))
        if pb is None:
            continue
        for i in reps:
            call = seq[i]
            base = lay.resp + i * lay.rsize
            for k, tv in TAGS:
                lit = I.A("ch", i, k)
                # anything stored in the response, announced field or not
                for off, n, v in I.read_slices(s, Ptr(r.prf, base), lay.rsize):
                    f = next((f for f, x in lay.fields[k].items() if f != "chain#" and x[0] <= off < x[0] + x[1]), None)
                    for x in alts(I, pv, pb, v, [lit]):
                        labs = (I.labels(x) or EMPTY)
                        if f is None and "UNDEF" in labs:
                            continue
                        labs = labs - {"UNDEF", "RND"}
                        insts = {l for l in labs if l[0] not in ("rnd", "sec")}
                        secs = {l for l in labs if l[0] == "sec" and l[1] not in r.public}
                        bad = {l for l in insts if l[0] not in ALLOWED[k]}
                        rep.ok("a response depends only on what its challenge opens", not bad, name,
                               "with challenge '%s' bytes %d..%d of response %d depend on %s" % (k, off, off + n - 1, i, sorted({l[0] for l in bad})))
                        other = {l for l in insts if l[1] != call}
                        rep.ok("a response depends only on its own repetition", not other, name,
                               "with challenge '%s' bytes %d..%d of response %d depend on data of another repetition" % (k, off, off + n - 1, i))
                        rep.ok("the secret walk is not written", not secs, name, "with challenge '%s' bytes %d..%d of response %d depend directly on the secret walk" % (k, off, off + n - 1, i))
                        if f is None or bad or other:
                            continue
                        want = FIELD[k, f]
                        rep.ok("every response field carries the data it announces", (want, call) in labs, name,
                               "with challenge '%s' field %s of response %d does not carry %s of that repetition" % (k, f, i, want))
                        if (k, f) == ("bottom", "chain"):
                            rr = {l for l in labs if l[0] == "rnd"}
                            q = (off - lay.fields[k][f][0]) // lay.enc
                            fresh = {l for l in rr if used.setdefault(l, (i, q)) == (i, q)}
                            rep.ok("every bottom kernel point is rescaled with a random factor of its own", bool(fresh), name,
                                   "kernel point %d of a bottom response of repetition %d is written %s" % (q, i, "with a factor used before" if rr else "without a random factor"))
                tv8 = alts(I, pv, pb, I.read(s, Ptr(r.prf, lay.tagoff(i)), lay.tagsize), [lit])
                rep.ok("the announced kind is the challenge", all(x == tv & ((1 << 8 * lay.tagsize) - 1) for x in tv8) and tv8, name,
                       "with challenge '%s' response %d announces %r" % (k, i, tv8))
        for nm, off, e in (("first", lay.E0, 0), ("second", lay.E1, 1)):
            for x in alts(I, pv, pb, I.read(s, Ptr(r.prf, off), lay.enc), []):
                labs = I.labels(x) or EMPTY
                rep.ok("the statement in the proof is the pair of end curves of the walk", labs == frozenset([("sec", r.public[e])]), name,
                       "the %s statement curve depends on %s" % (nm, sorted(map(str, labs))))
    for ins, ws in r.scalars:
        for q, w in enumerate(ws):
            bits = min(64, pr.eA - 64 * q)
            if bits <= 0:
                continue
            for x in (w.alts if type(w) is G else ((EMPTY, w),)):
                lo, hi = I.rng(x[1])
                lab = {l for l in (I.labels(x[1]) or EMPTY) if l[0] == "rnd"}
                rep.ok("rescaling factors fill the group of order 2^e", lab and hi >= (1 << bits) - 1 and lo <= 1, I.where(ins),
                       "word %d of a rescaling factor has the range %d..%d%s" % (q, lo, hi, "" if lab else " and is not random"))


def challenge(rep, r):
    """C04 on the prover's side: layout of the challenge input"""
    I, lay = r.I, r.lay
    T = I.T
    ab = [e for e in r.events if e[0] == "absorb"]
    name = "poik.c Prove (P%d)" % r.bits
    if not rep.ok("one hash derives the prover's challenge", len(ab) == 1, name, "%d absorb operations" % len(ab)):
        return None
    _, ins, sl, total, sponge, _ = ab[0]
    at = I.where(ins)
    jt = {}
    order = {c[3]: k for k, c in enumerate(r.calls)}
    pos = {k: i for i, k in enumerate(order[o] for o in sorted(order))}
    one = T("c", pow(2, 64 * r.pr.nw, r.pr.p))
    for nm, e in (("j0", 0), ("j1", r.width)):
        d = [T("dec", T("in", "sec", r.secE + e * lay.enc + h * r.pr.fb, r.pr.fb)) for h in range(2)]
        ji = T("jinv", d[0], d[1], one, T("c", 0))
        for h in range(2):
            jt[T("enc", T("o", h, ji))] = (nm, h)
    hb = lay.fields["left"]["h3"][1]
    out, seen = [], set()
    for o, n, v in sl:
        if type(v) is int:
            out.append((o, n, "const", v))
            continue
        t = I.term(v) if type(v) is not G else None
        if t in jt:
            out.append((o, n, jt[t], None))
            seen.add(jt[t])
            continue
        k = T.rev[t] if t is not None else None
        if k and k[0] == "comm" and n == hb and k[1] in pos:
            out.append((o, n, k[2], pos[k[1]]))
            seen.add((k[2], pos[k[1]]))
            continue
        rep.ok("the prover's challenge input consists of domain tag, invariants and whole commitments", False, at, "bytes %d..%d are something else" % (o, o + n - 1))
        return None
    for q in (("j0", 0), ("j0", 1), ("j1", 0), ("j1", 1)):
        rep.ok("both statement invariants enter the prover's challenge", q in seen, at, "invariant %s (half %d) is missing" % q)
    for i in range(lay.reps):
        for h in ("h2", "h3"):
            rep.ok("both commitments of every repetition enter the prover's challenge", (h, i) in seen, at, "commitment %s of repetition %d is missing" % (h, i))
    for e in r.tlog:
        t = e[5]
        while t is not None and T.rev[t][0] in ("block", "perm"):
            t = T.rev[t][1]
        rep.ok("the prover's challenge digits come from the challenge hash", t == sponge, I.where(e[0]), "digits are sampled from bytes that are not output of the challenge hash")
    return sorted(out, key=lambda q: q[0]), total


# ------------------------------------------------------------------ one proof instance
class IRun:
    """abstract run of Instance, twice in a row on different output structures"""

    def __init__(self, bits):
        pr = self.pr = prims.P(bits)
        self.bits = bits
        self.mods = build.lib(bits, "poik", threading=True)
        self.lay = layout.Proof(self.mods[0])
        self.inst = Inst(self.mods[0], pr)
        self.events, self.rnd, self.points = [], [], []
        self.hooks = Hooks()
        pp = {}
        for d in (prims.field(pr), prims.curve(pr), prims.ct(), prims.libc(), prims.hashing(self.events), proto.protocol(pr)):
            pp.update(d)
        pp["randombytes"] = draws(self.rnd)
        for s in "AB":
            pp["Random_Point_" + s] = self.point(s)
        names = self.mods[0].funcs
        self.missing = [n for n in ("Instance", "Random_Point_B", "Isogeny_A", "Isogeny_B") if n not in names]
        I = self.I = ai.Interp(self.mods, pp, hooks=self.hooks)
        L = self.lay.L
        n = L.size(L.by_name("secret"))
        self.secE, et = L.field("secret", "E")
        self.secP, _ = L.field("secret", "P")
        self.width = L.array(et)[1] - 1
        sec = I.root("sec", n, lambda I_, o, off, k: I_.input("sec", off, k, EMPTY))
        sts = [State()]
        self.v = [I.root("v%d" % k, self.inst.isize, "undef") for k in range(2)]
        self.c = [I.root("c%d" % k, self.inst.csize, "undef") for k in range(2)]
        for k in range(2):
            sts = [s for st in sts for s, _ in I.run("Instance", [Ptr(sec, 0), Ptr(self.v[k], 0), Ptr(self.c[k], 0)], st)]
        self.outs = sts

    def point(self, side):
        n = self.pr.fe

        def prim(I, st, args, ins):
            E = readn(I, st, args[0], [n] * 4, ins)
            k = len(self.points)
            t = I.T("rp", k, I.T("cv4", *[prims.tmof(I, x) for x in E]))
            self.points.append((ins, side, t))
            lab = frozenset([("rp", k)])
            for x in E:
                lab |= I.labels(x)
            for q in range(4):
                I.write(st, padd(I, args[1], q * n), n, AV(0, (1 << 8 * n) - 1, lab, I.T("o", q, t)), ins)
        return prim


def instance(rep, r):
    I, pr, lay = r.I, r.pr, r.lay
    T = I.T
    name = "poik.c Instance (P%d)" % r.bits
    rep.ok("an instance is produced", bool(r.outs), name, "no path of Instance returns")
    io = {n: (o, s) for n, o, s in r.inst.ifields}
    co = {n: (o, s) for n, o, s in r.inst.cfields}
    L = r.inst.L
    _, lt = L.field("instance", "left")
    lE, lP = L.field(lt, "E")[0], L.field(lt, "P")[0]
    height = L.array(L.field(lt, "P")[1])[1]
    _, bt = L.field("instance", "bottom")
    bE, bP = L.field(bt, "E")[0], L.field(bt, "P")[0]
    fe = pr.fe
    for s in r.outs:
        used = {}
        for c in range(2):
            vp = lambda o: Ptr(r.v[c], o)
            whole = {}
            for h in ("r2", "r3"):
                o, n = io[h]
                v = I.read(s, vp(o), n)
                t = I.term(v) if type(v) is AV else None
                ok = t is not None and any(t == d[2] and d[1] == n for d in r.rnd)
                rep.ok("a hiding string is one complete random draw", ok, name, "hiding string %s is not filled completely from one draw of %d bytes" % (h, n))
                if ok:
                    rep.ok("hiding strings are drawn freshly", t not in used, name, "hiding string %s of call %d equals %s" % (h, c + 1, used.get(t)))
                    used[t] = "%s of call %d" % (h, c + 1)
                whole[h] = t
            # the left walk
            kers = []
            for q in range(height):
                pt = [I.read(s, vp(io["left"][0] + lP + (4 * q + k) * fe), fe) for k in range(4)]
                ts = [I.term(x) for x in pt]
                rp = next((p for p in r.points if p[1] == "B" and ts == [T("o", k, p[2]) for k in range(4)]), None)
                rep.ok("every kernel point of the left walk is a random point drawn for it", rp is not None, name, "kernel point %d of the left walk is not a fresh random point" % q)
                if rp is None:
                    break
                rep.ok("left walks are drawn freshly", rp[2] not in used, name, "kernel point %d of the left walk of call %d was used before" % (q, c + 1))
                used[rp[2]] = 1
                kers.append(T("pt", *ts))
            # commitments
            for h, rs, e in (("h2", "r2", "E2"), ("h3", "r3", "E3")):
                o, n = co[h]
                v = I.read(s, Ptr(r.c[c], o), n)
                t = I.term(v) if type(v) is AV else None
                cur = [I.term(I.read(s, vp(io[e][0] + k * fe), fe)) for k in range(4)]
                ok, why = commit(I, t, n, whole[rs], cur)
                rep.ok("the prover's commitment hashes its own hiding string and curve completely", ok, name, "commitment %s %s" % (h, why))
            # the bottom walk is the secret walk moved through the whole left walk
            for q in range(r.width):
                ts = [I.term(I.read(s, vp(io["bottom"][0] + bP + (4 * q + k) * fe), fe)) for k in range(4)]
                d = 0
                t = ts[0]
                while t is not None:
                    k = T.rev[t]
                    if k[0] == "o" and T.rev[k[2]][0] == "push" and T.rev[T.rev[k[2]][1]][0] == "isoB":
                        d += 1
                        t = T.rev[T.rev[k[2]][2]][1]
                        continue
                    break
                rep.ok("the bottom walk is the secret walk moved along the whole left walk", d == height and all(x is not None for x in ts), name,
                       "kernel point %d of the bottom walk was moved along %d of %d steps of the left walk" % (q, d, height))


def commit(I, t, n, rt, cur):
    T = I.T
    if t is None or T.rev[t][0] != "shake":
        return False, "is not a hash"
    k = T.rev[t]
    if k[1] != n:
        return False, "has only %d of %d bytes of hash output" % (k[1], n)
    kk = T.rev[k[3]]
    ps = [kk[q + 1] for q in range(1, len(kk), 2)] if kk[0] == "cat" else [k[3]]
    ji = T("jinv", *cur)
    for w, x in (("hiding string", rt), ("invariant of the committed curve", T("enc", T("o", 0, ji))), ("invariant of the committed curve", T("enc", T("o", 1, ji)))):
        if x not in ps:
            return False, "does not contain the complete " + w
    return True, ""


def randompoint(rep, bits):
    """random_point: both components of x are complete random draws of their own"""
    pr = prims.P(bits)
    mods = build.lib(bits, "poik", threading=True)
    rnd, ev = [], []
    pp = {}
    for d in (prims.field(pr), prims.ct(), prims.libc()):
        pp.update(d)
    pp["randombytes"] = draws(rnd)
    pp["fp2sqrt"] = lambda I, st, args, ins: 1
    I = ai.Interp(mods, pp, hooks=Hooks())
    fe = pr.fe
    A = I.root("A", 2 * fe, lambda I_, o, off, n: I_.input("A", off, n, EMPTY))
    P = I.root("P", 4 * fe, "undef")
    name = "poik.c random_point (P%d)" % bits
    outs = I.run("random_point", [Ptr(A, 0), Ptr(P, 0)], State())
    rep.ok("a random point is produced", bool(outs), name, "no outcome")
    for s, _ in outs:
        seen = []
        for h in range(2):
            for w in range(pr.nw):
                x = I.read(s, Ptr(P, h * fe + 8 * w), 8)
                lab = {l for l in I.labels(x) if l[0] == "rnd"}
                lo, hi = I.rng(x)
                full = w < pr.nw - 1
                rep.ok("coordinates of random points are random in every word", bool(lab) and lo == 0 and hi >= ((1 << 64) - 1 if full else 255), name,
                       "word %d of component %d has range %d..%d%s" % (w, h, lo, hi, "" if lab else " and is not random"))
                seen.append((h, lab))
        a = set().union(*[l for h, l in seen if h == 0])
        b = set().union(*[l for h, l in seen if h == 1])
        rep.ok("the components of a random point are drawn independently", not a & b, name, "both components use the same draw")


def ternary(rep, bits):
    """sample_ternary in the constant domain, for every byte value: which bytes are used and which digits they give"""
    mods = build.lib(bits, "poik", threading=True)
    pp = dict(prims.libc())
    name = "poik.c sample_ternary (P%d)" % bits
    I = ai.Interp(mods, pp, hooks=Hooks())
    if "sample_ternary" not in mods[0].funcs:
        raise AnalysisError("sample_ternary not found")

    def call(bs, nt):
        b, t = I.root("b", len(bs), "undef"), I.root("t", max(nt, 1), "undef")
        st = State()
        for k, v in enumerate(bs):
            I.write(st, Ptr(b, k), 1, v)
        outs = I.run("sample_ternary", [Ptr(b, 0), len(bs), Ptr(t, 0), nt], st)
        if len(outs) != 1 or type(outs[0][1]) is not int:
            raise AnalysisError("sample_ternary is not decided on constants")
        s, r = outs[0]
        cells = [I.read(s, Ptr(t, k), 1) for k in range(nt)]
        return r, [c if type(c) is int else None for c in cells]
    per = {}
    for v in range(256):
        r, d = call([v], 8)
        rep.ok("digits fill a prefix whose length is reported", all((x is not None) == (k < r) for k, x in enumerate(d)), name, "byte %d: %d digits announced, digits %r" % (v, r, d))
        per[v] = tuple(d[:r])
    ns = {len(x) for x in per.values() if x}
    rep.ok("every accepted byte gives the same number of digits", len(ns) == 1, name, "accepted bytes give %s digits" % sorted(ns))
    if len(ns) != 1:
        return
    n = ns.pop()
    for m in range(1, n + 1):
        cnt = {}
        for x in per.values():
            if x:
                cnt[x[:m]] = cnt.get(x[:m], 0) + 1
        ok = len(cnt) == 3 ** m and len(set(cnt.values())) == 1 and all(set(x) <= {255, 0, 1} for x in cnt)
        rep.ok("bytes used give every digit string equally often", ok, name, "the %d possible strings of %d digits occur between %d and %d times among the byte values"
               % (len(cnt), m, min(cnt.values()), max(cnt.values())))
    # several bytes: concatenation, cut at the number wanted, rejected bytes contribute nothing
    rej = [v for v in per if not per[v]]
    acc = [v for v in per if per[v]]
    tests = [[acc[5], acc[100]], [acc[7], acc[-1], acc[0]], []]
    if rej:
        tests += [[rej[0], acc[9]], [acc[11], rej[-1], acc[200]], rej[:2]]
    for bs in tests:
        cat = [x for v in bs for x in per[v]]
        for nt in sorted({0, 1, n - 1, n, n + 1, 2 * n, 2 * n + 2, 3 * n + 1}):
            if not bs and nt == 0:
                continue
            r, d = call(bs, nt) if bs else (0, [])
            rep.ok("digits of successive bytes are concatenated", r == min(nt, len(cat)) and d[:r] == cat[:r], name, "bytes %r, %d digits wanted: %d digits %r" % (bs, nt, r, d[:r]))


def generate(rep, bits):
    """C03: Generate reports success only for a certified starting curve, and its walk starts there"""
    pr = prims.P(bits)
    mods = build.lib(bits, "poik", threading=True)
    pp = {}
    for d in (prims.field(pr), prims.curve(pr), prims.ct(), prims.libc(), proto.protocol(pr)):
        pp.update(d)
    pp["randombytes"] = draws([])
    pts = []

    class F:
        pass
    f = F()
    f.pr, f.points = pr, pts
    for s in "AB":
        pp["Random_Point_" + s] = IRun.point(f, s)
    for n in ("Generate", "Check_Curve", "Random_Point_A"):
        if n not in mods[0].funcs:
            raise AnalysisError(n + " not found")
    I = ai.Interp(mods, pp, hooks=Hooks())
    L = layout.Layout(mods[0])
    E0 = I.root("E0", pr.enc, lambda I_, o, off, n: I_.input("E0", off, n, EMPTY))
    sec = I.root("sec", L.size(L.by_name("secret")), "undef")
    outs = I.run("Generate", [Ptr(E0, 0), Ptr(sec, 0)], State())
    T = I.T
    d = [T("dec", T("in", "E0", h * pr.fb, pr.fb)) for h in range(2)]
    ss = I.A("ss", T("cv4", d[0], d[1], T("c", pow(2, 64 * pr.nw, pr.p)), T("c", 0)))
    pv = I.prover()
    name = "poik.c Generate (P%d)" % bits
    yes = 0
    for s, v in outs:
        for g, x in (v.alts if type(v) is G else ((EMPTY, v),)):
            lo, hi = I.rng(x)
            b = pv.base(set(s.facts) | set(g))
            if hi == 0 or b is None:
                continue
            lits = [] if type(x) is int else None
            yes += 1
            ok = pv.entails(b, [], [ss])
            if not ok and type(x) is AV and x.tm is not None:
                tl = I.truelits(x) if hasattr(I, "truelits") else None
                ok = tl is not None and pv.entails(b, tl, [ss])
            rep.ok("generation succeeds only on a certified starting curve", ok, name, "returns true without the starting curve having passed the supersingularity test")
    rep.ok("generation can succeed", yes > 0, name, "never returns true")


if __name__ == "__main__":
    import sys, time
    from . import report
    sys.setrecursionlimit(20000)
    t = time.time()
    r = PRun(int(sys.argv[1]), sys.argv[2] == "thr")
    print(time.time() - t, r.I.stats, r.missing, len(r.calls), len(r.rnd), r.hooks.problems[:3])
    rep = report.Report("C05")
    responses(rep, r)
    x = challenge(rep, r)
    print(time.time() - t, x and (len(x[0]), x[1]))
    instance(rep, IRun(int(sys.argv[1])))
    randompoint(rep, int(sys.argv[1]))
    from . import bodies
    bodies.walkpoints(rep, int(sys.argv[1]))
    print(time.time() - t)
    for k in rep.counts.items():
        print(k)
    for v in rep.viol[:10]:
        print(v)
