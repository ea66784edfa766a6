"""Abstract run of Verify on an arbitrary proof structure; query interface for the verdict properties."""
from . import build, ai, prims, proto, layout, poly
from .ai import AV, G, Ptr, Fn, EMPTY, AnalysisError, State, MObj, Obj
from .prims import padd

TAGS = (("left", 0xffffffff), ("bottom", 0), ("right", 1))


class Hooks:
    def __init__(self):
        self.problems = []
        self.compares = []
        self.wstores = []
        self.inworker = 0
        self.workerobjs = set()
        self.early = []

    def problem(self, I, kind, ins, msg, **kw):
        self.problems.append((kind, I.where(ins), msg))

    def compare(self, I, st, a, b, n, ins, lits):
        self.compares.append((ins, a, b, n, lits))

    def store(self, I, st, p, ins, v):
        if self.inworker:
            op = ins.op
            if op == "store" and any(g[0] == "locks" for g in st.ghost) and increments(I, ins):
                op = "atomicrmw"        # read-modify-write under a lock
            if op == "cmpxchg":
                op = "atomicrmw"
            self.wstores.append((ins, p, v, op))


def increments(I, ins):
    """the stored value is a loaded value plus a positive constant"""
    x = ins.a[0]
    d = I.defs[ins.fn].get(x.i) if type(x) is ai.L else None
    if d is None or d.op != "add":
        return False
    c = [y for y in d.a if type(y) is int]
    l = [I.defs[ins.fn].get(y.i) for y in d.a if type(y) is ai.L]
    return len(c) == 1 and 0 < c[0] < 1 << (d.ty.n - 1) and len(l) == 1 and l[0] is not None and l[0].op == "load"


def threads(hooks, n=2):
    d = {"sysconf": lambda I, st, args, ins: n, "usleep": lambda I, st, args, ins: 0}
    cnt = [0]

    def live(st):
        for g in st.ghost:
            if g[0] == "live":
                return g[1]
        return frozenset()

    def setlive(st, s):
        st.ghost = tuple(g for g in st.ghost if g[0] != "live") + ((("live", s),) if s else ())

    def create(I, st, args, ins):
        fn = I.prune(args[2], st.facts)
        if type(fn) is not Fn:
            raise AnalysisError("pthread_create target at " + I.where(ins))
        f = fn.f or I.ext.get(fn.name) or ins.fn.mod.funcs.get(fn.name)
        bad = st.fork()
        cnt[0] += 1
        h = 0x7000 + cnt[0]
        I.write(st, args[0], 8, h, ins)
        setlive(st, live(st) | {h})
        before = ai.Obj._n
        hooks.inworker += 1
        hooks.wbase = before
        outs = I.call(f, [args[3]], st, ins)
        hooks.inworker -= 1
        res = [(s, 0) for s, v in outs]
        setlive(bad, live(bad))
        bad.ghost = bad.ghost + (("createfail", I.loc(ins)),)
        return res + [(bad, 11)]
    d["pthread_create"] = create

    def join(I, st, args, ins):
        h = I.prune(args[0], st.facts)
        s = live(st)
        bad = st.fork()
        bad.ghost = bad.ghost + (("joinfail", I.loc(ins)),)
        if type(h) is int and h in s:
            setlive(st, s - {h})
        return [(st, 0), (bad, 3)]
    d["pthread_join"] = join

    def lock(on):
        def prim(I, st, args, ins):
            p = I.prune(args[0], st.facts)
            key = (p.obj.n, p.off) if type(p) is Ptr and type(p.off) is int else None
            held = next((g[1] for g in st.ghost if g[0] == "locks"), frozenset())
            held = held | {key} if on else held - {key}
            st.ghost = tuple(g for g in st.ghost if g[0] != "locks") + ((("locks", held),) if held else ())
            return 0
        return prim
    d["pthread_mutex_lock"], d["pthread_mutex_unlock"] = lock(True), lock(False)
    d["pthread_mutex_init"] = d["pthread_mutex_destroy"] = lambda I, st, args, ins: 0
    return d


def trits(pr, reps, log, depth=2):
    """sample_ternary(bytes, nbytes, trits, ntrits): fills a prefix, returns its length (the body is analysed
    separately).  Outcomes: everything, nothing, all but one, one byte's worth; short outcomes at most `depth` times."""
    def prim(I, st, args, ins):
        if len(args) != 4:
            raise AnalysisError("arity of sample_ternary")
        by, nb, tr, nt = args
        nb = I.prune(nb, st.facts)
        cv = I.prune(nt, st.facts)
        tr = I.prune(tr, st.facts)
        if type(tr) is not Ptr or type(tr.off) is not int or type(cv) is not int or type(nb) is not int:
            raise AnalysisError("sample_ternary arguments at " + I.where(ins))
        src = I.read(st, by, nb, ins)
        lab = I.labels(src)
        ts = I.term(src)
        k = len([g for g in st.ghost if g[0] == "short"])
        log.append((ins, tr.obj, tr.off, cv, nb, ts, k))
        full = I.T("trits", ts) if ts is not None else I.T.fresh("trits")
        res = []
        for n in sorted({0, min(5, cv - 1), cv - 1, cv} if k < depth else {cv}, reverse=True):
            if n < 0 or n > cv:
                continue
            s = st.fork()
            for q in range(n):
                I.write(s, Ptr(tr.obj, tr.off + q), 1, AV(0, 255, lab, I.T("trit", q, full)), ins)
            if n < cv:
                s.ghost = s.ghost + (("short", k, n),)
            res.append((s, n))
        return res
    return prim


class VRun:
    def __init__(self, bits, threading=True, arch="fast", progress=False):
        self.pr = prims.P(bits)
        self.threading = threading
        self.mods = build.lib(bits, "poik", arch=arch, threading=threading)
        self.lay = layout.Proof(self.mods[0])
        self.events = []
        self.tlog = []
        self.hooks = Hooks()
        pp = {}
        for d in (prims.field(self.pr), prims.curve(self.pr), prims.ct(), prims.libc(), prims.hashing(self.events),
                  proto.protocol(self.pr), threads(self.hooks)):
            pp.update(d)
        pp["sample_ternary"] = trits(self.pr, self.lay.reps, self.tlog)
        pp["randombytes"] = prims.randombytes
        names = self.mods[0].funcs
        self.missing = [n for n in ("Isogeny_A", "Isogeny_B", "canonical_model", "Check_Curve", "sample_ternary") if n not in names]
        I = self.I = ai.Interp(self.mods, pp, hooks=self.hooks)
        self.taglit = {}
        lay = self.lay
        for i in range(lay.reps):
            for k, v in TAGS:
                self.taglit[i, k] = I.A("tag", i, k)
            self.taglit[i, "other"] = I.A("tag", i, "other")
            ks = ["left", "bottom", "right", "other"]
            for k in ks:
                I.A.impl[self.taglit[i, k]] = frozenset(-self.taglit[i, q] for q in ks if q != k)
        tagat = {lay.tagoff(i): i for i in range(lay.reps)}

        def default(I_, o, off, n):
            i = tagat.get(off)
            if i is not None and n == lay.tagsize:
                alts = [(frozenset([self.taglit[i, k]]), v) for k, v in TAGS]
                alts.append((frozenset([self.taglit[i, "other"]]), I_.input("prf", off, n, EMPTY)))
                return G(tuple(alts))
            return I_.input("prf", off, n, EMPTY)
        self.prf = I.root("proof", lay.size, default)
        st = State()
        if progress:
            g = I.gref(ai.GRef("Progress_Indicator_File", 0), self.mods[0])
            I.write(st, g, 8, Ptr(Obj("FILE", None, "input", "undef"), 0))
        # tags must exist as guarded cells
        self.outs = I.run("Verify", [Ptr(self.prf, 0)], st)
        self.prover = I.prover()

    # ---- terms of the statement
    def one(self):
        return self.I.T("c", pow(2, 64 * self.pr.nw, self.pr.p))

    def dec(self, off):
        """terms of the two decoded components of an encoded element at offset off"""
        I, fb = self.I, self.pr.fb
        return [I.T("dec", I.T("in", "prf", off + k * fb, fb)) for k in range(2)]

    def curve(self, off):
        a = self.dec(off)
        return self.I.T("cv4", a[0], a[1], self.one(), self.I.T("c", 0))

    def kpoint(self, off):
        a = self.dec(off)
        return self.I.T("pt", a[0], a[1], self.one(), self.I.T("c", 0))

    def accepting(self):
        """[(state, literals under which the return value is true)] for returns that may be true"""
        res = []
        for s, v in self.outs:
            v = self.I.prune(v, s.facts)
            for g, x in (v.alts if type(v) is G else ((EMPTY, v),)):
                lo, hi = self.I.rng(x)
                if hi == 0:
                    continue
                base = self.prover.base(set(s.facts) | set(g))
                if base is None:
                    continue
                res.append((s, x, base))
        return res


if __name__ == "__main__":
    import sys, time
    t = time.time()
    r = VRun(int(sys.argv[1]), threading=sys.argv[2] == "thr", progress=len(sys.argv) > 3)
    print("time", time.time() - t, r.I.stats, r.missing)
    print(r.hooks.problems[:5], len(r.hooks.problems))
    for s, v in r.outs:
        print(s.ghost, v if type(v) is not G else [(len(g), x) for g, x in v.alts])
    acc = r.accepting()
    print(len(acc), [(s.ghost, x, len(b[0]),len(b[1])) for s, x, b in acc], time.time() - t)
    print(len(r.hooks.wstores), r.tlog and r.tlog[0][2:5])
    print([(c[0] and r.I.loc(c[0]), c[3], None if c[4] in (None, False) else len(c[4])) for c in r.hooks.compares if c[3]==r.lay.reps])
    I=r.I
    for e in r.events:
        if e[0]=='absorb':
            for o,n,v in e[2]:
                if I.labels(v): print(o,n,v); break
            break
    for c in r.hooks.compares:
        if c[3]==r.lay.reps: print(c[1],c[2])
