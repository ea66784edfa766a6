"""The two command-line programs: what exit status zero implies."""
from . import ai, build, io, layout, prims
from .ai import AV, G, Ptr, Obj, MObj, State, EMPTY, AnalysisError
from .iocheck import H


class Prog:
    def __init__(self, name, bits):
        self.bits = bits
        self.mod = build.program(name, bits)
        self.lib = build.lib(bits, "poik")
        self.lay = layout.Proof(self.lib[0])
        self.ev = []
        self.exits = []        # (state, code, ins)
        self.early = []        # stdout writes before acceptance
        S = self.S = io.Streams(self.ev, out=("stdout",))
        pp = prims.libc()
        pp.update(S.prims())
        n = prims.P(bits).enc
        self.n = n

        def obj(I, st, p):
            p = I.prune(p, st.facts)
            return p if type(p) is Ptr else None

        def mark(st, *g):
            st.ghost = tuple(x for x in st.ghost if x[0] != g[0] or x[0] == "out") + (g,)

        def parse(I, st, args, ins):
            p = obj(I, st, args[1])
            b = st.fork()
            mark(b, "badparse", I.where(ins))
            src = S.name(I, st, args[0])
            if p is not None and type(p.off) is int:
                for o in range(0, self.lay.size, 8):
                    pass
                I.write(st, p, self.lay.size, I.input("text", 0, self.lay.size, EMPTY), ins)
                mark(st, "parsed", p.obj.n, p.off, src)
            return [(st, 1), (b, 0)]

        def parse_fp2(I, st, args, ins):
            p = obj(I, st, args[1])
            b = st.fork()
            mark(b, "badparse", I.where(ins))
            if p is not None:
                I.write(st, p, n, I.input("curve", 0, n, EMPTY), ins)
            return [(st, 1), (b, 0)]

        def verify(I, st, args, ins):
            p = obj(I, st, args[0])
            b = st.fork()
            mark(b, "rejected", I.where(ins))
            v = I.read(st, p, self.lay.size, ins) if p is not None else None
            whole = type(v) is AV and v.tm == I.T("in", "text", 0, self.lay.size)
            mark(st, "verified", p.obj.n if p else None, p.off if p else None, whole)
            return [(st, 1), (b, 0)]

        def generate(I, st, args, ins):
            b = st.fork()
            mark(b, "nogen", I.where(ins))
            v = I.read(st, args[0], n, ins)
            p = obj(I, st, args[1])
            sz = self.lay.L.size(self.lay.L.by_name("secret"))
            I.write(st, p, sz, I.input("secret", 0, sz, EMPTY), ins)
            mark(st, "generated", p.obj.n, "UNDEF" in I.labels(v))
            return [(st, 1), (b, 0)]

        def prove(I, st, args, ins):
            p = obj(I, st, args[1])
            q = obj(I, st, args[0])
            sz = self.lay.L.size(self.lay.L.by_name("secret"))
            v = I.read(st, q, sz, ins)
            whole = type(v) is AV and v.tm == I.T("in", "secret", 0, sz)
            I.write(st, p, self.lay.size, I.input("proof", 0, self.lay.size, EMPTY), ins)
            mark(st, "proved", p.obj.n, p.off, whole)
            return None

        def dump(size):
            def f(I, st, args, ins):
                p = obj(I, st, args[1])
                v = I.read(st, p, size, ins) if p is not None else None
                k = I.T.rev[v.tm] if type(v) is AV and v.tm is not None else ("?",)
                f = S.name(I, st, args[0])
                what = (k[1], k[2], k[3]) if k[0] == "in" else ("?", 0, 0)
                self.before(I, st, f, ins)
                if f == "stdout":
                    st.ghost = st.ghost + (("out",) + what,)
                return S.wrote(I, st, f, ins, 1, 0, [("item",) + what])
            return f
        pp.update({"Parse": parse, "Parse_Fp2": parse_fp2, "Verify": verify, "Generate": generate, "Prove": prove,
                   "Dump": dump(self.lay.size), "Dump_Fp2": dump(n)})
        for nm in ("fputs", "fputc", "putc", "puts", "putchar", "printf", "fprintf", "fwrite"):
            pp[nm] = self.guard(pp[nm])

        def ex(I, st, args, ins):
            self.exits.append((st, I.prune(args[0], st.facts), ins))
            return []
        pp["exit"] = ex
        pp["_exit"] = pp["_Exit"] = pp["quick_exit"] = ex
        pp["atexit"] = lambda I, st, args, ins: 0
        pp["setvbuf"] = pp["setbuf"] = lambda I, st, args, ins: 0
        I = self.I = ai.Interp([self.mod] + self.lib, pp, hooks=H())
        I.split_ret = True
        st = State()
        S.setup(I, st, self.mod)
        argv = I.root("argv", 8 * 8, lambda I_, o, off, m: Ptr(arg, 0) if m == 8 else I_.unknown(8 * m))
        arg = I.root("arg", None, lambda I_, o, off, m: I_.input("arg", off, m, EMPTY))
        f = self.mod.funcs.get("main")
        if f is None:
            raise AnalysisError("no main in " + name)
        a = [AV(1, 4, EMPTY, I.T("argc")), Ptr(argv, 0)][:len(f.params)]
        for s, v in I.call(f, a, st):
            self.exits.append((s, I.prune(v, s.facts), None))

    def before(self, I, st, f, ins):
        if f == "stdout" and not any(g[0] == "verified" for g in st.ghost):
            self.early.append((I.where(ins), st.ghost))

    def guard(self, p):
        def q(I, st, args, ins):
            k = len(self.ev)
            r = p(I, st, args, ins)
            for e in self.ev[k:]:
                if e[0] == "write" and e[1] == "stdout":
                    s = r[0][0] if isinstance(r, list) else st
                    self.before(I, s, "stdout", ins)
            return r
        return q

    def zero(self):
        """[(state, where)] of outcomes that may be exit status 0"""
        out = []
        for s, v, ins in self.exits:
            alts = v.alts if type(v) is G else ((EMPTY, v),)
            for g, x in alts:
                lo, hi = self.I.rng(x)
                # the status is the low byte
                if type(x) is int and x & 0xff:
                    continue
                if type(x) is AV and lo == hi and lo & 0xff:
                    continue
                out.append((s, self.I.where(ins) if ins is not None else "main"))
        return out


def verify_prog(rep, bits):
    p = Prog("verify.c", bits)
    z = p.zero()
    at = "verify.c main (P%d)" % bits
    rep.count("outcomes of verify.c", len(p.exits))
    if not z:
        rep.error("verify.c never exits with status 0")
        return p
    for s, w in z:
        g = {x[0]: x for x in s.ghost}
        v, q = g.get("verified"), g.get("parsed")
        rep.ok("verify exits with status 0 only for an accepted proof", v is not None and q is not None and "rejected" not in g and "badparse" not in g, at,
               "exit status 0 is possible %s" % ("although reading the proof failed" if "badparse" in g or q is None else
                                                 "although Verify rejected" if "rejected" in g else "without Verify having accepted"))
        if v is not None and q is not None:
            rep.ok("the proof that is verified is the one that was read", v[3] and v[1] == q[1] and q[3] == "stdin", at,
                   "the structure passed to Verify is not exactly what was read from standard input")
        outs = [x[1:] for x in s.ghost if x[0] == "out"]
        want = [("text", p.lay.E0, p.n), ("text", p.lay.E1, p.n)]
        rep.ok("the verified curves are printed, first statement curve first", outs == want, at,
               "on exit status 0 the printed items are %r" % (outs,))
    for w, gh in p.early[:3]:
        rep.ok("nothing is printed before acceptance", False, w, "output on standard output before Verify accepted")
    rep.ok("nothing is printed before acceptance", True, at, "")
    return p


def written(rep, bits, name):
    """C07: status 0 only with everything written and flushed"""
    p = Prog(name, bits)
    z = p.zero()
    at = "%s main (P%d)" % (name, bits)
    rep.count("outcomes of %s" % name, len(p.exits))
    if not z:
        rep.error("%s never exits with status 0" % name)
        return p
    for s, w in z:
        bad = [x for x in s.ghost if x[0] == "werr"]
        rep.ok("status 0 only if no write failed", not bad, bad[0][1] if bad else at, "%s can exit with status 0 although this write failed" % name)
        rep.ok("status 0 only after the output was flushed", not any(x[0] == "dirty" for x in s.ghost), at,
               "%s can exit with status 0 with output that was never successfully flushed" % name)
        outs = [x[1:] for x in s.ghost if x[0] == "out"]
        want = [("proof", 0, p.lay.size)] if name == "prove.c" else [("text", p.lay.E0, p.n), ("text", p.lay.E1, p.n)]
        rep.ok("status 0 only after the complete output was handed to the stream", outs == want, at,
               "on exit status 0 the written items are %r" % (outs,))
        if name == "prove.c":
            g = {x[0]: x for x in s.ghost}
            rep.ok("prove succeeds only after generation succeeded", "generated" in g and "proved" in g and g["proved"][3] and "nogen" not in g, at,
                   "exit status 0 is possible without a complete generated secret having been proved")
    return p


def inputs(rep, bits):
    """C06: the programs go on only with input that was read in full"""
    for name in ("verify.c", "prove.c"):
        p = Prog(name, bits)
        z = p.zero()
        at = "%s main (P%d)" % (name, bits)
        if not z:
            rep.error("%s never exits with status 0" % name)
            continue
        for s, w in z:
            g = {x[0]: x for x in s.ghost}
            rep.ok("programs stop when reading fails", "badparse" not in g, at, "%s can exit with status 0 although reading its input failed" % name)
            if "generated" in g:
                rep.ok("the starting curve is completely read or initialised", not g["generated"][2], at,
                       "%s hands a curve to Generate that was not completely read" % name)
