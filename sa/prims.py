"""Models of library operations for the abstract interpreter.

A model only states what the operation may read, what it writes, and names the result by an uninterpreted
function of its inputs; the few algebraic facts used (x-0 = x, repeated doubling composes, copying) are exact.
"""
import re
from .ai import AV, G, Ptr, Fn, Agg, EMPTY, AnalysisError, contradict, State, MObj, Obj, M64


class P:
    """parameters of one prime"""
    def __init__(self, bits):
        self.bits = bits
        self.nw = {434: 7, 503: 8, 610: 10, 751: 12}[bits]
        self.fe = 8 * self.nw
        self.f2 = 2 * self.fe
        self.eA, self.eB, self.cof = {434: (216, 137, 1), 503: (250, 159, 1), 610: (305, 192, 1), 751: (372, 239, 1)}[bits]
        self.p = (1 << self.eA) * 3 ** self.eB - 1
        self.fb = (bits + 7) // 8          # encoded bytes of one component
        self.enc = 2 * self.fb


# ------------------------------------------------------------------ reading and writing vectors of cells
def tmof(I, v):
    t = I.term(v)
    return t if t is not None else I.T.fresh("anon")


def readn(I, st, p, sizes, ins):
    """list of values of consecutive chunks"""
    out = []
    off = 0
    for n in sizes:
        q = padd(I, p, off)
        out.append(I.read(st, q, n, ins))
        off += n
    return out


def padd(I, p, d):
    if d == 0:
        return p
    if type(p) is Ptr:
        return Ptr(p.obj, p.off + d if type(p.off) is int else I.offadd(p.off, d))
    if type(p) is G:
        return G(tuple((g, padd(I, x, d)) for g, x in p.alts))
    return p


def isnull(p):
    return type(p) is int and p == 0


def combos(I, st, vals, cap=12):
    """guarded cross product of values -> [(guard, [plain values])]"""
    vals = [I.prune(v, st.facts) if type(v) is G else v for v in vals]
    if not any(type(v) is G for v in vals):
        return [(EMPTY, vals)]
    acc = [(EMPTY, [])]
    for v in vals:
        nxt = []
        for g, l in acc:
            for h, x in (v.alts if type(v) is G else ((EMPTY, v),)):
                if contradict(g, h):
                    continue
                gh = g | h
                if g and h:
                    c = I.close(gh)
                    if any(-q in c for q in c) or contradict(frozenset(c), st.facts):
                        continue
                nxt.append((gh, l + [x]))
        acc = nxt
        if len(acc) > cap:
            return [(EMPTY, [I.jflat(v, v.alts[0][1]) if type(v) is G else v for v in vals])]
    return acc or [(EMPTY, [I.jflat(v, v.alts[0][1]) if type(v) is G else v for v in vals])]


def labs(I, vals):
    r = EMPTY
    for v in vals:
        l = I.labels(v)
        if l:
            r = r | l
    return r


def apply(I, st, vals, f):
    """f(list of plain values) -> list of result values; lifted over guards"""
    cs = combos(I, st, vals)
    if len(cs) == 1:
        return f(cs[0][1])
    res = [(g, f(l)) for g, l in cs]
    return [I.mkG([(g, r[k]) for g, r in res]) for k in range(len(res[0][1]))]


def uf(name, ins, outs, bound=None):
    """uninterpreted function: ins/outs = [(argument index, [chunk sizes])]"""
    def prim(I, st, args, ins_):
        vals = []
        for i, sz in ins:
            if isnull(args[i]):
                vals.append(0)
                continue
            vals += readn(I, st, args[i], sz, ins_)
        osz = [n for i, sz in outs for n in sz]

        def f(l):
            lab = labs(I, l)
            if I.terms:
                ts = tuple(tmof(I, x) for x in l)
                base = I.T(name, *ts)
                return [AV(0, (1 << (8 * n)) - 1, lab, I.T("o", k, base)) for k, n in enumerate(osz)]
            return [AV(0, (1 << (8 * n)) - 1, lab) for n in osz]
        res = apply(I, st, vals, f)
        k = 0
        for i, sz in outs:
            if isnull(args[i]):
                k += len(sz)
                continue
            off = 0
            for n in sz:
                I.write(st, padd(I, args[i], off), n, res[k], ins_)
                off += n
                k += 1
        return None
    prim.uf = (name, ins, outs)
    return prim


# ------------------------------------------------------------------ field level
def field(pr):
    b, n = pr.bits, pr.fe
    F = [n]
    F2 = [n, n]
    d = {}

    def f(name, ins, outs):
        return uf(name, [(i, F) for i in ins], [(o, F) for o in outs])

    def f2(name, ins, outs):
        return uf(name, [(i, F2) for i in ins], [(o, F2) for o in outs])
    d["fpadd%d" % b] = f("fpadd", [0, 1], [2])
    d["fpneg%d" % b] = f("fpneg", [0], [0])
    d["fpdiv2_%d" % b] = f("fpdiv2", [0], [1])
    d["fpmul%d_mont" % b] = f("fpmul", [0, 1], [2])
    d["fpsqr%d_mont" % b] = f("fpsqr", [0], [1])
    d["fpinv%d_mont" % b] = f("fpinv", [0], [0])
    d["fpinv%d_chain_mont" % b] = f("fpinvch", [0], [0])
    d["fpinv%d_mont_bingcd" % b] = f("fpinv", [0], [0])
    d["to_mont"] = f("tomont", [0], [1])
    d["from_mont"] = f("frommont", [0], [1])
    d["fp2mul%d_mont" % b] = f2("fp2mul", [0, 1], [2])
    d["fp2sqr%d_mont" % b] = f2("fp2sqr", [0], [1])
    d["fp2inv%d_mont" % b] = f2("fp2inv", [0], [0])
    d["fp2inv%d_mont_bingcd" % b] = f2("fp2inv", [0], [0])

    def fpsub(I, st, args, ins):
        x, y = I.read(st, args[0], n, ins), I.read(st, args[1], n, ins)

        def g(l):
            a, c = l
            if type(c) is int and c == 0:
                return [a]
            lab = labs(I, l)
            return [AV(0, (1 << 8 * n) - 1, lab, I.T("o", 0, I.T("fpsub", tmof(I, a), tmof(I, c))) if I.terms else None)]
        I.write(st, args[2], n, apply(I, st, [x, y], g)[0], ins)
    d["fpsub%d" % b] = fpsub

    def fpcorr(I, st, args, ins):
        x = I.read(st, args[0], n, ins)

        def g(l):
            a = l[0]
            if type(a) is int:
                return [a if a < pr.p else a - pr.p]
            t = None
            if I.terms:
                t = tmof(I, a)
                k = I.T.rev[t]
                if not (k[0] == "o" and I.T.rev[k[2]][0] == "corr"):
                    t = I.T("o", 0, I.T("corr", t))
            return [AV(0, pr.p - 1, a.lab, t)]
        I.write(st, args[0], n, apply(I, st, [x], g)[0], ins)
    d["fpcorrection%d" % b] = fpcorr

    def fpcopy(I, st, args, ins):
        I.write(st, args[1], n, I.read(st, args[0], n, ins), ins)
    d["fpcopy%d" % b] = fpcopy

    def fpzero(I, st, args, ins):
        I.write(st, args[0], n, 0, ins)
    d["fpzero%d" % b] = fpzero

    # codecs
    def fp2_encode(I, st, args, ins):
        v = readn(I, st, args[0], F2, ins)

        def g(l):
            r = []
            for x in l:
                if I.terms:
                    r.append(AV(0, (1 << 8 * pr.fb) - 1, I.labels(x), I.T("enc", tmof(I, x))))
                else:
                    r.append(AV(0, (1 << 8 * pr.fb) - 1, I.labels(x)))
            return r
        for k in range(2):
            I.write(st, padd(I, args[1], k * pr.fb), pr.fb, apply(I, st, [v[k]], g)[0], ins)
    d["fp2_encode"] = fp2_encode

    def fp2_decode(I, st, args, ins):
        for k in range(2):
            v = I.read(st, padd(I, args[0], k * pr.fb), pr.fb, ins)

            def g(l):
                return [AV(0, (1 << 8 * n) - 1, I.labels(l[0]), I.T("dec", tmof(I, l[0])) if I.terms else None)]
            I.write(st, padd(I, args[1], k * n), n, apply(I, st, [v], g)[0], ins)
    d["fp2_decode"] = fp2_decode
    return d


# ------------------------------------------------------------------ curve level
def getpt(I, l):
    """point term of 4 plain components"""
    ts = [tmof(I, x) for x in l]
    k = [I.T.rev[t] for t in ts]
    if all(x[0] == "o" and x[1] == i and x[2] == k[0][2] for i, x in enumerate(k)):
        b = I.T.rev[k[0][2]]
        if b[0] in ("dbl", "tpl", "pow"):
            return k[0][2]
    return I.T("pt", *ts)


def getcv(I, l):
    return I.T("cv", *[tmof(I, x) for x in l])


def mulpt(pr, op, esrc):
    """op dbl/tpl: args P,Q,c1,c2[,e]"""
    n = pr.fe

    def prim(I, st, args, ins):
        P4 = readn(I, st, args[0], [n] * 4, ins)
        c = readn(I, st, args[2], [n] * 2, ins) + readn(I, st, args[3], [n] * 2, ins)
        e = 1
        if esrc is not None:
            e = I.prune(args[esrc], st.facts)

        def f(l):
            lab = labs(I, l)
            if not I.terms:
                return [AV(0, (1 << 8 * n) - 1, lab) for _ in range(4)]
            ev = l[8] if len(l) > 8 else e
            if type(ev) is int and ev == 0:
                return l[:4]
            if type(ev) is int and ev >> 31:
                return l[:4]
            pt, cv = getpt(I, l[:4]), getcv(I, l[4:8])
            k = I.T.rev[pt]
            if type(ev) is int:
                if k[0] == op and k[3] == cv and type(k[1]) is int:
                    t = I.T(op, k[1] + ev, k[2], cv)
                else:
                    t = I.T(op, ev, pt, cv)
            else:
                t = I.T("pow", op, tmof(I, ev), pt, cv)
            return [AV(0, (1 << 8 * n) - 1, lab, I.T("o", i, t)) for i in range(4)]
        vals = P4 + c
        if type(e) is not int:
            vals.append(e)
        res = apply(I, st, vals, f)
        for i in range(4):
            I.write(st, padd(I, args[1], i * n), n, res[i], ins)
    return prim


def curve(pr):
    n = pr.fe
    F2, PT = [n, n], [n] * 4
    d = {}
    d["xDBL"] = mulpt(pr, "dbl", None)
    d["xDBLe"] = mulpt(pr, "dbl", 4)
    d["xTPL"] = mulpt(pr, "tpl", None)
    d["xTPLe"] = mulpt(pr, "tpl", 4)
    d["xDBLADD"] = uf("xdbladd", [(0, PT), (1, PT), (2, F2), (3, F2), (4, F2)], [(0, PT), (1, PT)])
    d["j_inv"] = uf("jinv", [(0, F2), (1, F2)], [(2, F2)])
    d["inv_3_way"] = uf("inv3", [(0, F2), (1, F2), (2, F2)], [(0, F2), (1, F2), (2, F2)])
    d["get_A"] = uf("getA", [(0, F2), (1, F2), (2, F2)], [(3, F2)])
    d["get_4_isog"] = uf("get4", [(0, PT)], [(1, F2), (2, F2), (3, F2 * 3)])
    d["eval_4_isog"] = uf("eval4", [(0, PT), (1, F2 * 3)], [(0, PT)])
    d["get_3_isog"] = uf("get3", [(0, PT)], [(1, F2), (2, F2), (3, F2 * 2)])
    d["eval_3_isog"] = uf("eval3", [(0, PT), (1, F2 * 2)], [(0, PT)])
    d["get_2_isog"] = uf("get2", [(0, PT)], [(1, F2), (2, F2)])
    d["eval_2_isog"] = uf("eval2", [(0, PT), (1, PT)], [(0, PT)])
    return d


# ------------------------------------------------------------------ constant-time helpers, comparison
def cmp_zero_lits(I, st, a, b, n, ins):
    """literal set equivalent to 'first n bytes equal', or False (definitely different), or None (unknown)"""
    sa, sb = I.read_slices(st, a, n, ins), I.read_slices(st, b, n, ins)
    pts = sorted({o for o, _, _ in sa} | {o for o, _, _ in sb} | {n})
    lits = set()
    lab = EMPTY
    unknown = False
    # prefer cell granularity: merge boundaries where both sides have whole cells
    A = {o: (s, v) for o, s, v in sa}
    B = {o: (s, v) for o, s, v in sb}
    for i, lo in enumerate(pts[:-1]):
        hi = pts[i + 1]

        def part(sl):
            for o, s, v in sl:
                if o <= lo < o + s:
                    return I.extract(v, lo - o, hi - lo, s)
        x, y = part(sa), part(sb)
        lab = lab | I.labels(x) | I.labels(y)
        if type(x) is G or type(y) is G:
            l = None
            xx, yy = x, y
            r = I.lift2(lambda p, q: I.icmp("eq", p, q, 8 * (hi - lo)), xx, yy, st.facts)
            if type(r) is int:
                if r == 0:
                    return False, lab
                continue
            sets = I.outcomes(r, 1, st.facts)
            if not sets:
                return False, lab
            cm = frozenset.intersection(*sets)
            if len(sets) == 1:
                lits |= cm
            else:
                rest = [s - cm for s in sets]
                lits |= cm
                if all(rest):
                    acc = rest[0]
                    for q in rest[1:]:
                        acc = I.mkor(acc, q)
                    lits |= acc
                    if not acc:
                        unknown = True
                else:
                    unknown = True
            continue
        if type(x) is int and type(y) is int:
            if x != y:
                return False, lab
            continue
        l = I.eqatom(I.term(x), I.term(y))
        if l is False:
            return False, lab
        if l is True:
            continue
        if l is None:
            unknown = True
            continue
        lits.add(l)
    if unknown:
        lits.add(I.A.fresh("cmp?"))
    return frozenset(lits), lab


def guard_pair(I, lits):
    """(positive guard, negative guard) for a conjunction"""
    if len(lits) == 1:
        (l,) = lits
        return frozenset([l]), frozenset([-l])
    a = I.A("all", lits)
    I.A.impl[a] = frozenset(lits)
    return frozenset([a]), frozenset([-a])


def ct_compare(I, st, args, ins):
    n = I.prune(args[2], st.facts)
    if type(n) is not int:
        raise AnalysisError("ct_compare length at " + I.where(ins))
    r, lab = cmp_zero_lits(I, st, args[0], args[1], n, ins)

    def L(v):
        return AV(v, v, lab) if lab else v
    if I.hooks is not None and hasattr(I.hooks, "compare"):
        I.hooks.compare(I, st, args[0], args[1], n, ins, r)
    if r is False:
        return L(0xff)
    if not r:
        return L(0)
    g, h = guard_pair(I, r)
    return G(((g, L(0)), (h, L(0xff))))


def memcmp(I, st, args, ins):
    n = I.prune(args[2], st.facts)
    if type(n) is not int:
        return I.unknown(32, labs(I, args))
    r, lab = cmp_zero_lits(I, st, args[0], args[1], n, ins)
    if I.hooks is not None and hasattr(I.hooks, "compare"):
        I.hooks.compare(I, st, args[0], args[1], n, ins, r)
    if r is False:
        return AV(1, (1 << 32) - 1, lab)
    if not r:
        return 0 if not lab else AV(0, 0, lab)
    g, h = guard_pair(I, r)
    return G(((g, 0 if not lab else AV(0, 0, lab)), (h, AV(1, (1 << 32) - 1, lab))))


def ct_cmov(I, st, args, ins):
    r, a, n, sel = args
    n = I.prune(n, st.facts)
    sel = I.prune(sel, st.facts)
    if type(n) is not int:
        raise AnalysisError("ct_cmov length at " + I.where(ins))
    old, new = I.read_slices(st, r, n, ins), I.read_slices(st, a, n, ins)
    lab = I.labels(sel)
    alts = sel.alts if type(sel) is G else ((EMPTY, sel),)
    # cell-wise, on the union of boundaries
    pts = sorted({o for o, _, _ in old} | {o for o, _, _ in new} | {n})

    def part(sl, lo, hi):
        for o, s, v in sl:
            if o <= lo < o + s:
                return I.extract(v, lo - o, hi - lo, s)
    for i, lo in enumerate(pts[:-1]):
        hi = pts[i + 1]
        x, y = part(old, lo, hi), part(new, lo, hi)
        out = []
        for g, s in alts:
            if type(s) is AV and s.lo == s.hi:
                s = s.lo
            if type(s) is int and s & 0xff == 0:
                v = x
            elif type(s) is int and s & 0xff == 0xff:
                v = y
            else:
                v = AV(0, (1 << 8 * (hi - lo)) - 1, I.labels(x) | I.labels(y), I.T.fresh("cmov") if I.terms else None)
            out.append((g, I.addlab(v, lab) if lab else v))
        I.write(st, padd(I, r, lo), hi - lo, I.mkG(out), ins)
    return None


def ct():
    return {"ct_compare": ct_compare, "memcmp": memcmp, "ct_cmov": ct_cmov}


# ------------------------------------------------------------------ libc
def libc():
    d = {}

    def memcpy(I, st, args, ins):
        I.intrinsic("llvm.memcpy", args[:3], st, ins)
        return args[0]
    d["memcpy"] = d["memmove"] = memcpy

    def memset(I, st, args, ins):
        v = args[1]
        if type(v) is int:
            v &= 0xff
        I.intrinsic("llvm.memset", [args[0], v, args[2]], st, ins)
        return args[0]
    d["memset"] = memset

    def strlen(I, st, args, ins):
        p = args[0]
        if type(p) is Ptr and type(p.off) is int:
            k = 0
            while p.obj.size is None or p.off + k < p.obj.size:
                v = I.read(st, Ptr(p.obj, p.off + k), 1, ins)
                if type(v) is not int:
                    break
                if v == 0:
                    return k
                k += 1
        return I.unknown(64, I.labels(p))
    d["strlen"] = strlen

    def malloc(I, st, args, ins):
        n = args[0] if type(args[0]) is int else I.rng(args[0])[0]
        o = Obj("heap@" + I.loc(ins), n, "heap", "undef", ins)
        st.mem[o] = MObj()
        st.own.add(o)
        ok = I.A.fresh("malloc")
        return G(((frozenset([ok]), Ptr(o, 0)), (frozenset([-ok]), 0)))
    d["malloc"] = malloc

    def free(I, st, args, ins):
        p = I.prune(args[0], st.facts)
        if type(p) is Ptr:
            if p.obj not in st.mem and p.obj.kind == "heap":
                I.report("dangling", ins, "double free of " + p.obj.name)
            elif p.obj.kind != "heap" or p.off != 0:
                I.report("badptr", ins, "free of " + repr(p))
            st.mem.pop(p.obj, None)
            st.own.discard(p.obj)
        return None
    d["free"] = free
    d["abort"] = lambda I, st, args, ins: []
    d["exit"] = lambda I, st, args, ins: []
    d["usleep"] = lambda I, st, args, ins: 0
    d["__ctype_b_loc"] = ctype
    d["strtol"] = lambda I, st, args, ins: I.unknown(64, EMPTY, I.T.fresh("strtol") if I.terms else None)

    def stream(I, st, args, ins):
        return AV(0, (1 << 32) - 1, EMPTY, I.T.fresh("io") if I.terms else None)
    for nme in ("fprintf", "fputs", "fputc", "fflush", "printf", "puts", "putchar", "fwrite", "perror", "ferror", "fclose", "putc"):
        d[nme] = stream
    return d


def ctype(I, st, args, ins):
    o = I.gobj.get("ctype")
    if o is None:
        t = I.gobj["ctype.tab"] = Obj("ctype.tab", None, "input", lambda I_, ob, off, n: I_.unknown(8 * n))
        o = I.gobj["ctype"] = Obj("ctype", 8, "input", lambda I_, ob, off, n: Ptr(t, 256))
    return Ptr(o, 0)


# ------------------------------------------------------------------ randomness
def randombytes(I, st, args, ins):
    """success: every byte is a fresh draw; failure: buffer untouched, returns 1"""
    p, n = args[0], args[1]
    if type(n) is not int:
        n = I.prune(n, st.facts)
    ok = I.A.fresh("rng-ok")
    s2 = st.fork()
    I.assume(st, [ok])
    I.assume(s2, [-ok])
    draw = I.T.fresh("rnd") if I.terms else None
    if type(n) is int:
        I.write(st, p, n, AV(0, (1 << 8 * n) - 1, frozenset(["RND"]), draw), ins)
    if I.hooks is not None and hasattr(I.hooks, "random"):
        I.hooks.random(I, st, p, n, ins, draw)
    return [(st, 0), (s2, 1)]


# ------------------------------------------------------------------ threads: run the worker to completion at creation
def threads(nthreads=2):
    d = {}
    d["sysconf"] = lambda I, st, args, ins: nthreads

    def create(I, st, args, ins):
        fn = args[2]
        if type(fn) is not Fn:
            raise AnalysisError("pthread_create target at " + I.where(ins))
        f = fn.f or I.ext.get(fn.name) or ins.fn.mod.funcs.get(fn.name)
        out = []
        for s, v in I.call(f, [args[3]], st, ins):
            out.append((s, 0))
        return out
    d["pthread_create"] = create
    d["pthread_join"] = lambda I, st, args, ins: 0
    return d


# ------------------------------------------------------------------ hashing
def hashing(events):
    d = {}

    def absorb(I, st, args, ins):
        n = args[2]
        if type(n) is not int:
            raise AnalysisError("hash length at " + I.where(ins))
        sl = I.read_slices(st, args[1], n, ins) if n else []
        base = I.T.fresh("sponge") if I.terms else None
        events.append(("absorb", ins, sl, n, base, st.facts))
        lab = labs(I, [v for _, _, v in sl])
        I.write(st, args[0], 200, AV(0, (1 << 1600) - 1, lab, base), ins)
    d["shake256_absorb"] = absorb

    def squeeze(I, st, args, ins):
        k = args[1]
        if type(k) is not int:
            raise AnalysisError("squeeze count at " + I.where(ins))
        s = I.read(st, args[2], 200, ins)
        lab = I.labels(s)
        t = tmof(I, s if type(s) is not G else I.jflat(s, s.alts[0][1])) if I.terms else None
        for i in range(k):
            t2 = I.T("perm", t) if I.terms else None
            I.write(st, padd(I, args[0], 136 * i), 136, AV(0, (1 << 1088) - 1, lab, I.T("block", t2) if I.terms else None), ins)
            t = t2
        I.write(st, args[2], 200, AV(0, (1 << 1600) - 1, lab, t), ins)
        events.append(("squeeze", ins, None, k, t, st.facts))
    d["shake256_squeezeblocks"] = squeeze

    def shake(I, st, args, ins):
        out, outlen, inp, inlen = args
        if type(outlen) is not int or type(inlen) is not int:
            raise AnalysisError("hash length at " + I.where(ins))
        sl = I.read_slices(st, inp, inlen, ins) if inlen else []

        def f(l):
            lab = labs(I, l)
            t = None
            if I.terms:
                flat = []
                for (o, s, _), v in zip(sl, l):
                    flat.append((s, tmof(I, v)))
                t = I.T("shake", outlen, inlen, I.cat_term(flat) if flat else 0)
            return [AV(0, (1 << 8 * outlen) - 1, lab, t)]
        r = apply(I, st, [v for _, _, v in sl], f)[0]
        events.append(("shake", ins, sl, outlen, r, st.facts, inlen, out))
        I.write(st, out, outlen, r, ins)
    d["shake256"] = shake
    return d


def progress(I, st, args, ins):
    return None
