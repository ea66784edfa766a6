"""C08 for the proof library and for the random source itself."""
import os
from . import build, ai, prims, proto, layout, prun, karr
from .ai import AV, G, Ptr, EMPTY, AnalysisError, State
from .vrun import Hooks


class Draws:
    """the random source: fills the buffer, or fails and leaves it alone (remembered until the same buffer is filled)"""

    def __init__(self, rep, name):
        self.rep, self.name = rep, name
        self.log, self.sites, self.bad = [], set(), []

    def __call__(self, I, st, args, ins):
        n = I.prune(args[1], st.facts)
        if type(n) is not int:
            raise AnalysisError("length of a random draw at " + I.where(ins))
        p = I.prune(args[0], st.facts)
        key = (p.obj.id if hasattr(p.obj, "id") else id(p.obj), p.off) if type(p) is Ptr else None
        self.sites.add(id(ins))
        k = len(self.log)
        t = I.T.fresh("rnd")
        self.log.append((ins, n, t))
        failed = [g for g in st.ghost if g[0] == "rngfail"]
        again = any(g[2] == key for g in failed)
        if failed and not again and len(self.bad) < 3:
            self.bad.append((failed[0][1], "goes on to the next draw at " + I.where(ins)))
        if failed and not again:
            return []                       # already reported
        ok = I.A.fresh("rng-ok")
        out = []
        if not failed and len(self.bad) < 3:
            s2 = st.fork()
            I.assume(s2, [-ok])
            s2.ghost = s2.ghost + (("rngfail", I.where(ins), key),)
            out.append((s2, AV(1, (1 << 32) - 1)))
            self.rep.count("draws followed into the failing case")
        I.assume(st, [ok])
        st.ghost = tuple(g for g in st.ghost if g[0] != "rngfail")
        I.write(st, args[0], n, AV(0, (1 << 8 * n) - 1, frozenset([("rnd", k)]), t), ins)
        return [(st, 0)] + out

    def judge(self, I, outs, returns_failure=False):
        for s, v in outs:
            for g in s.ghost:
                if g[0] != "rngfail":
                    continue
                if returns_failure and v is not None:
                    lo, hi = I.rng(v) if type(v) is not G else (0, 1)
                    if hi == 0:
                        continue
                self.bad.append((g[1], "returns"))
        what = "after a failed draw the proof library does not carry on"
        self.rep.ok(what, not self.bad, self.name, "the draw at %s fails and the operation %s" % (self.bad[0] if self.bad else ("", "")))
        self.rep.ok("draws exist", bool(self.log), self.name, "the random source is not consulted")


def filled(rep, I, s, p, size, what, name):
    for off, n, v in I.read_slices(s, p, size):
        for g, x in (v.alts if type(v) is G else ((EMPTY, v),)):
            labs = I.labels(x) or EMPTY
            rep.ok("hiding strings and points are filled from the random source", any(type(l) is tuple and l[0] == "rnd" for l in labs) and "UNDEF" not in labs, name,
                   "bytes %d..%d of %s are not random" % (off - (p.off if off >= p.off else 0), off + n - 1 - (p.off if off >= p.off else 0), what))


def callers(mod):
    """call sites of the random source, per function, in functions reachable from a function of external linkage"""
    cg, sites = {}, {}
    for fn, f in mod.funcs.items():
        for b in f.order:
            for i in f.blocks[b].ins if not hasattr(b, "ins") else b.ins:
                if i.op == "call":
                    c = i.callee if hasattr(i, "callee") else None
                    nm = getattr(c, "name", c)
                    cg.setdefault(fn, set()).add(nm)
                    if nm == "randombytes":
                        sites.setdefault(fn, []).append(i)
    return cg, sites


def library(rep, bits):
    mod = build.lib(bits, "poik", threading=True)[0]
    seen = set()
    # Instance
    class IR(prun.IRun):
        pass
    D = Draws(rep, "poik.c Instance (P%d)" % bits)
    old = prun.draws
    try:
        prun.draws = lambda log: D
        r = prun.IRun(bits)
        if r.missing:
            raise AnalysisError("boundary functions not found: %s" % r.missing)
        D.judge(r.I, [(s, None) for s in r.outs])
        seen |= D.sites
        if not D.bad:
            for s in r.outs:
                for k in range(2):
                    for n, o, sz in r.inst.ifields:
                        if n in ("r2", "r3"):
                            filled(rep, r.I, s, Ptr(r.v[k], o), sz, "the hiding string " + n, D.name)
        D2 = Draws(rep, "poik.c Prove (P%d)" % bits)
        prun.draws = lambda log: D2
        r = prun.PRun(bits, True)
        if r.missing:
            raise AnalysisError("boundary functions not found: %s" % r.missing)
        D2.judge(r.I, r.outs)
        seen |= D2.sites
        if not D2.bad:
            for ins, ws in r.scalars:
                for q, w in enumerate(ws):
                    for g, x in (w.alts if type(w) is G else ((EMPTY, w),)):
                        labs = r.I.labels(x) or EMPTY
                        rep.ok("rescaling factors are filled from the random source", "UNDEF" not in labs and (r.I.rng(x)[1] == 0 or any(type(l) is tuple and l[0] == "rnd" for l in labs)),
                               r.I.where(ins), "word %d of a rescaling factor is not completely random" % q)
    finally:
        prun.draws = old
    # random_point
    pr = prims.P(bits)
    mods = build.lib(bits, "poik", threading=True)
    D = Draws(rep, "poik.c random_point (P%d)" % bits)
    pp = {}
    for d in (prims.field(pr), prims.ct(), prims.libc()):
        pp.update(d)
    pp["randombytes"] = D
    pp["fp2sqrt"] = lambda I, st, args, ins: 1
    if "random_point" not in mods[0].funcs:
        raise AnalysisError("random_point not found")
    I = ai.Interp(mods, pp, hooks=Hooks())
    A = I.root("A", 2 * pr.fe, lambda I_, o, off, n: I_.input("A", off, n, EMPTY))
    P = I.root("P", 4 * pr.fe, "undef")
    outs = I.run("random_point", [Ptr(A, 0), Ptr(P, 0)], State())
    D.judge(I, outs)
    seen |= D.sites
    if not D.bad:
        for s, _ in outs:
            filled(rep, I, s, Ptr(P, 0), 2 * pr.fe, "a random point", D.name)
    cg, sites = callers(mod)
    for fn, l in sites.items():
        for i in l:
            if id(i) not in seen:
                rep.error("a call of the random source in %s was not reached by the analysis" % fn)
            rep.count("call sites of the random source (proof library)")


def strconst(m, name):
    g = m.globals.get(name)
    i = g.init if g is not None else None
    if type(i) is tuple and i[0] == "bytes":
        return bytes(i[1]).split(b"\0")[0].decode("latin1")
    return None


def source(rep):
    m = build.inlined(os.path.join(build.SRC, "random/random.c"), ["-std=gnu11", "-DNDEBUG"] + build.ARCH["fast"], None)
    if "randombytes" not in m.funcs:
        raise AnalysisError("randombytes not found")
    F = karr.Fill(m, "randombytes")
    name = "random.c randombytes"
    for where, log in F.bad:
        rep.ok("randombytes reports success only after delivering every byte", False, "random.c " + str(where), "returns 0 without having filled the buffer on the path %s" % (log,))
    rep.ok("randombytes reports success only after delivering every byte", not F.bad, name, "see above")
    rep.ok("the bytes come from a system generator", bool(F.sources), name, "no system call delivers the bytes")
    lits = [strconst(m, n) for n in m.globals]
    for I, where in F.opens:
        a = next((strconst(m, getattr(x, "name", None)) for x in I.a if strconst(m, getattr(x, "name", None)) is not None), None)
        # a path kept in a variable: any absolute path the file contains
        for path in [a] if a is not None else [x for x in lits if x and x.startswith("/")] or [None]:
          rep.ok("the bytes come from a system generator", path in ("/dev/urandom", "/dev/random"), "random.c " + str(where), "opens %r" % (path,))
    if not F.rets:
        rep.error("randombytes never returns success")
    rep.count("return paths of randombytes", F.rets)
    for x in sorted(F.sources):
        rep.sample("source: " + x)
