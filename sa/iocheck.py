"""Text format of curves and proofs: reader, writer, and the two programs."""
from . import ai, build, io, layout, prims
from .ai import AV, G, Ptr, Obj, MObj, State, EMPTY, AnalysisError, contradict
from .vrun import TAGS

HEX = frozenset(b"0123456789abcdefABCDEF")


def ctype_word(c):
    if not 0 <= c < 128:
        return 0
    ch = chr(c)
    w = 0
    w |= 0x100 * ch.isupper() | 0x200 * ch.islower() | 0x400 * ch.isalpha() | 0x800 * ch.isdigit()
    w |= 0x1000 * (c in HEX) | 0x2000 * (ch in " \t\n\v\f\r") | 0x4000 * (32 <= c < 127) | 0x8000 * (33 <= c < 127)
    w |= 1 * (ch in " \t") | 2 * (c < 32 or c == 127) | 4 * (33 <= c < 127 and not ch.isalnum()) | 8 * ch.isalnum()
    return w


class Unk(Exception):
    pass


class CharEval:
    """concrete meaning of terms and atoms over single input characters"""

    def __init__(self, I):
        self.I = I
        self.dep = {}

    def chars(self, t):
        """set of character numbers a term depends on; None if it depends on anything else"""
        if t in self.dep:
            return self.dep[t]
        k = self.I.T.rev[t]
        if k[0] == "chr":
            r = frozenset([k[1]])
        elif k[0] == "c":
            r = EMPTY
        elif k[0] in ("sext", "trunc", "zext"):
            r = self.chars(k[-1])
        elif k[0] == "ext":
            r = self.chars(k[1])
        elif k[0] in ("add", "sub", "and", "or", "mul", "shl", "lshr"):
            a, b = self.chars(k[2]), self.chars(k[3])
            r = None if a is None or b is None else a | b
        elif k[0] in ("ctype", "isxdigit", "isdigit", "isspace", "isalpha", "isalnum"):
            r = self.chars(k[1])
        elif k[0] in ("strtol", "cat"):
            r = EMPTY
            for x in k[1:] if k[0] == "strtol" else k[2::2]:
                c = self.chars(x)
                r = None if r is None or c is None else r | c
        else:
            r = None
        self.dep[t] = r
        return r

    def ev(self, t, m):
        """(value, width)"""
        k = self.I.T.rev[t]
        o = k[0]
        if o == "chr":
            return m[k[1]], 8
        if o == "c":
            return k[1], 0
        if o == "sext":
            v, _ = self.ev(k[3], m)
            v &= (1 << k[1]) - 1
            if v >> (k[1] - 1):
                v |= ((1 << k[2]) - 1) ^ ((1 << k[1]) - 1)
            return v, k[2]
        if o == "trunc":
            return self.ev(k[2], m)[0] & ((1 << k[1]) - 1), k[1]
        if o == "ext":
            return (self.ev(k[1], m)[0] >> (8 * k[2])) & ((1 << 8 * k[3]) - 1), 8 * k[3]
        if o in ("add", "sub", "and", "or", "mul", "shl", "lshr"):
            a, b = self.ev(k[2], m)[0], self.ev(k[3], m)[0]
            return self.I.cbin(o, a, b, k[1]), k[1]
        if o == "ctype":
            v = self.ev(k[1], m)[0]
            if v >> 63:
                v -= 1 << 64
            return ctype_word((v - 256) // 2), 16
        if o in ("isxdigit", "isdigit", "isspace", "isalpha", "isalnum"):
            v = self.ev(k[1], m)[0]
            bit = {"isxdigit": 0x1000, "isdigit": 0x800, "isspace": 0x2000, "isalpha": 0x400, "isalnum": 8}[o]
            return int(bool(ctype_word(v if v < 128 else -1) & bit)), 32
        if o == "strtol":
            s = bytes(self.ev(x, m)[0] & 0xff for x in k[1:])
            n = 0
            for c in s:
                if c not in HEX:
                    break
                n = 16 * n + int(chr(c), 16)
            return n, 64
        if o == "cat":
            v = sh = 0
            for q in range(1, len(k), 2):
                v |= self.ev(k[q + 1], m)[0] << sh
                sh += 8 * k[q]
            return v, sh
        raise Unk(o)

    def atom(self, a, m):
        k = self.I.A.rev[a]
        if k[0] == "nz":
            return self.ev(k[1], m)[0] != 0
        x, wx = self.ev(k[1], m)
        y, wy = self.ev(k[2], m)
        if k[0] == "eq":
            return x == y
        if k[0] == "ult":
            return x < y
        if k[0] == "slt":
            w = max(wx, wy, 32)

            def s(v):
                return v - (1 << w) if v >> (w - 1) else v
            return s(x) < s(y)
        raise Unk(k[0])

    def index(self):
        """character -> atoms that depend on it alone"""
        ix = {}
        for n, k in enumerate(self.I.A.rev):
            if not n or k[0] not in ("eq", "ult", "slt", "nz"):
                continue
            d = EMPTY
            for t in k[1:]:
                c = self.chars(t) if isinstance(t, int) else None
                d = None if d is None or c is None else d | c
            if d is not None and len(d) == 1:
                ix.setdefault(next(iter(d)), []).append(n)
        return ix


class H:
    def __init__(self):
        self.problems = []

    def problem(self, I, kind, ins, msg, **kw):
        self.problems.append((kind, I.where(ins), msg))


def accepting(I, outs, P):
    res = []
    for s, v in outs:
        v = I.prune(v, s.facts)
        for g, x in (v.alts if type(v) is G else ((EMPTY, v),)):
            if I.rng(x)[1] == 0:
                continue
            base = P.base(set(s.facts) | set(g))
            if base is not None:
                res.append((s, x, base))
    return res


def interp(bits, ev, out, extra=None):
    mods = build.lib(bits, "poik")
    S = io.Streams(ev, out=out)
    pp = prims.libc()
    pp.update(S.prims())
    pp.update(extra or {})
    I = ai.Interp(mods, pp, hooks=H())
    I.split_ret = True
    return I, S


class Accepted:
    """set of values a character can have at acceptance"""

    def __init__(self, I, P):
        self.I, self.P = I, P
        self.ce = CharEval(I)
        self.ix = self.ce.index()
        self.pat = {}

    def pattern(self, a, c):
        """values for which atom a (over character c) is true; cached by structure"""
        key = self.shape(a)
        r = self.pat.get(key)
        if r is None:
            r = self.pat[key] = frozenset(v for v in range(256) if self.ce.atom(a, {c: v}))
        return r

    def shape(self, a):
        def sh(t):
            k = self.I.T.rev[t]
            if k[0] == "chr":
                return "chr"
            if k[0] == "c":
                return ("c", k[1])
            if k[0] in ("sext",):
                return k[:3] + (sh(k[3]),)
            if k[0] in ("add", "sub", "and", "or", "mul", "shl", "lshr"):
                return k[:2] + (sh(k[2]), sh(k[3]))
            if k[0] == "ext":
                return ("ext", sh(k[1])) + k[2:]
            if k[0] == "trunc":
                return k[:2] + (sh(k[2]),)
            return (k[0],) + tuple(sh(x) for x in k[1:])
        k = self.I.A.rev[a]
        return (k[0],) + tuple(sh(t) for t in k[1:])

    def values(self, c, base, new=EMPTY):
        s = frozenset(range(256))
        rest = []
        for a in self.ix.get(c, ()):
            try:
                if a in base[0] or a in new:
                    s &= self.pattern(a, c)
                elif -a in base[0] or -a in new:
                    s -= self.pattern(a, c)
                else:
                    rest.append(a)
            except Unk:
                pass
        if rest and len(s) > 1 and not s <= HEX:
            ok = set()
            for v in s:
                lits = []
                for a in rest:
                    try:
                        lits.append(a if v in self.pattern(a, c) else -a)
                    except Unk:
                        pass
                if self.P.extend(base, list(new) + lits) is not None:
                    ok.add(v)
            s = frozenset(ok)
        return s

    def hexpair(self, t):
        """(hi char, lo char) if term t is the value of the two-digit hexadecimal number formed by two characters"""
        cs = self.ce.chars(t)
        if cs is None or len(cs) != 2:
            return None
        a, b = sorted(cs)
        key = ("hp", self.tshape(t, {a: 0, b: 1}))
        if key not in self.pat:
            r = None
            for hi, lo in ((a, b), (b, a)):
                try:
                    if all(self.ce.ev(t, {hi: x, lo: y})[0] & 0xff == 16 * int(chr(x), 16) + int(chr(y), 16) for x in HEX for y in HEX):
                        r = hi == a
                        break
                except Unk:
                    break
            self.pat[key] = r
        r = self.pat[key]
        return None if r is None else (a, b) if r else (b, a)

    def tshape(self, t, names):
        k = self.I.T.rev[t]
        if k[0] == "chr":
            return ("chr", names[k[1]])
        if k[0] == "c":
            return k
        if k[0] == "ext":
            return ("ext", self.tshape(k[1], names)) + k[2:]
        if k[0] in ("sext", "trunc", "zext"):
            return k[:-1] + (self.tshape(k[-1], names),)
        if k[0] in ("add", "sub", "and", "or", "mul", "shl", "lshr"):
            return k[:2] + tuple(self.tshape(x, names) for x in k[2:])
        if k[0] == "cat":
            return ("cat",) + tuple(x if q % 2 == 0 else self.tshape(x, names) for q, x in enumerate(k[1:]))
        return (k[0],) + tuple(self.tshape(x, names) for x in k[1:])


def reader(rep, bits, fname="Parse_Fp2", n=None, shape=("s", "p"), what="a curve"):
    """reader of a fixed-size item -> [(ws skipped before, token)] with token ('lit', set) | ('hi'|'lo', offset)"""
    ev = []
    I, S = interp(bits, ev, ())
    n = n or prims.P(bits).enc
    o = I.root("v", n, "undef")
    outs = I.run(fname, [{"s": S.file(I, "in"), "p": Ptr(o, 0), "n": n}[q] for q in shape], State())
    P = I.prover()
    acc = accepting(I, outs, P)
    at = "poik.c %s (P%d)" % (fname, bits)
    if not acc:
        rep.error("%s never succeeds" % fname)
        return None
    for p in I.hooks.problems:
        rep.violation("memory", p[1], p[2])
    seq = None
    A = Accepted(I, P)
    for s, x, base in acc:
        bad = [g for g in s.ghost if g[0] == "short"]
        rep.ok("reading %s succeeds only after every character was delivered" % what, not bad, bad[0][1] if bad else at,
               fname + " can succeed although this read hit the end of the input or an error")
        if bad:
            continue
        role = {}
        for k in range(n):
            v = I.read(s, Ptr(o, k), 1)
            alts = [y for g, y in v.alts if P.extend(base, g) is not None] if type(v) is G else [v]
            hp = None
            for y in alts:
                t = I.term(y)
                hp = A.hexpair(t) if t is not None else None
                ok = hp is not None
                if not rep.ok("every byte of %s comes from two hexadecimal characters of the input" % what, ok, at,
                              "byte %d can be accepted without being the value of two input characters" % k):
                    return None
                role[hp[0]] = ("hi", k)
                role[hp[1]] = ("lo", k)
        sq = []
        skip = False
        for e in ev:
            if e[0] == "skip":
                skip = True
            elif e[0] == "readlit":
                sq.append((skip, ("lit", ord(e[2]))))
                skip = False
            elif e[0] == "read":
                c = e[1]
                vals = A.values(c, base)
                sk = skip or e[2][-1] is True
                skip = False
                if c in role:
                    if not rep.ok("hexadecimal positions accept only hexadecimal digits", vals <= HEX, I.where(e[4]),
                                  "a character other than a hexadecimal digit is accepted (%r)" % sorted(vals - HEX)[:6]):
                        return None
                    rep.ok("hexadecimal positions accept what the writer emits", frozenset(b"0123456789abcdef") <= vals, I.where(e[4]),
                           "hexadecimal digits are rejected")
                    sq.append((sk, role[c]))
                else:
                    if not rep.ok("separators accept exactly one character", len(vals) == 1, I.where(e[4]),
                                  "%d different characters are accepted as separator" % len(vals)):
                        return None
                    sq.append((sk, ("lit", min(vals))))
        seq = sq
    return seq


def tokens(I, payload, S=None):
    """writer payload -> tokens"""
    out = []
    for p in payload:
        if p[0] == "chr":
            out.append(("lit", p[1] if type(p[1]) is int else None))
        elif p[0] == "hex":
            out += [("hi", p[1]), ("lo", p[1])]
        else:
            out.append(p)
    return out


def writer(rep, bits, fname="Dump_Fp2", n=None, shape=("s", "p"), what="a curve"):
    ev = []
    I, S = interp(bits, ev, ("out",))
    n = n or prims.P(bits).enc
    o = I.root("v", n, lambda I_, ob, off, m: I_.input("v", off, m, EMPTY))
    outs = I.run(fname, [{"s": S.file(I, "out"), "p": Ptr(o, 0), "n": n}[q] for q in shape], State())
    P = I.prover()
    acc = accepting(I, outs, P)
    at = "poik.c %s (P%d)" % (fname, bits)
    if not acc:
        rep.error("%s never succeeds" % fname)
        return None
    for s, x, base in acc:
        bad = [g for g in s.ghost if g[0] == "werr"]
        rep.ok("writing %s reports every failed write" % what, not bad, bad[0][1] if bad else at,
               fname + " can report success although this write failed")
    seq = []
    for e in ev:
        if e[0] != "write" or e[1] != "out":
            continue
        for t in tokens(I, e[2]):
            if t[0] in ("hi", "lo"):
                k = I.T.rev[I.term(t[1])]
                seq.append((t[0], k[2] if k[0] == "in" and k[3] == 1 else None))
            else:
                seq.append(t)
    return seq


def compare(rep, what, at, wr, rd):
    """writer tokens against reader tokens; white space in the output must be skipped by the reader"""
    ws = frozenset(b" \t\n\r\v\f")
    j = 0
    pend = False
    for t in wr:
        if t[0] == "lit" and t[1] in ws:
            pend = True
            continue
        if j >= len(rd):
            return rep.ok(what, False, at, "the writer emits more items than the reader expects (next: %r)" % (t,))
        sk, r = rd[j]
        if t != r or (pend and not sk):
            return rep.ok(what, False, at, "item %d: the writer emits %r, the reader expects %r%s" %
                          (j, t, r, " without skipping the white space before it" if t == r else ""))
        j += 1
        pend = False
    return rep.ok(what, j == len(rd), at, "the reader expects %d items, the writer emits %d" % (len(rd), j))


# ------------------------------------------------------------------ whole proofs
def fp2_reader_prim(S, n):
    def prim(I, st, args, ins):
        p = I.prune(args[1], st.facts)
        b = st.fork()
        if not any(g[0] == "short" for g in b.ghost):
            b.ghost = b.ghost + (("short", I.where(ins)),)
        S.nchar += 1
        S.ev.append(("fp2", S.nchar, p, st.facts, ins))
        I.write(st, p, n, AV(0, (1 << 8 * n) - 1, frozenset([("fp2", S.nchar)]), I.T("fp2", S.nchar)), ins)
        # a failing reader may have written any part of the object
        return [(st, 1), (b, 0)]
    return prim


def summarised(I, S, rep, bits, make, emit):
    """item helpers f(stream, buffer, constant length) are analysed once per length and then used as one item"""
    memo = {}
    for m in I.mods:
        for name, f in m.funcs.items():
            if len(f.params) != 3 or name in I.prims:
                continue

            def prim(I_, st, args, ins, f=f, name=name):
                a = [I_.prune(x, st.facts) for x in args]
                sh = tuple("s" if S.name(I_, st, x) else "p" if type(x) is Ptr else "n" if type(x) is int else "?" for x in a)
                if sorted(sh) != ["n", "p", "s"]:
                    return I_.call(f, args, st, ins)
                p, n = a[sh.index("p")], a[sh.index("n")]
                args = [a[sh.index("s")], p, n]
                if type(p) is not Ptr or type(p.off) is not int or type(n) is not int or not 0 < n <= 4096:
                    return I_.call(f, a, st, ins)
                if (name, n) not in memo:
                    from .report import Report
                    sub = Report("x")
                    sub.prop = rep.prop
                    seq = make(sub, name, n, sh)
                    if sub.errors:
                        memo[name, n] = None
                    else:
                        rep.merge(sub.dump())
                        memo[name, n] = seq if seq is not None else []
                seq = memo[name, n]
                if seq is None:
                    return I_.call(f, a, st, ins)
                return emit(I_, st, args, ins, p, n, seq, name)
            I.prims[name] = prim


def parse_all(rep, bits, memory=False):
    """returns {(rep, kind): token list}; prefix under 'head'"""
    ev = []
    pr = prims.P(bits)
    I, S = interp(bits, ev, ())
    lay = layout.Proof(I.mods[0])
    I.prims["Parse_Fp2"] = fp2_reader_prim(S, pr.enc)
    o = I.root("prf", lay.size, "undef")

    def emit(I_, st, args, ins, p, n, seq, name):
        b = st.fork()
        if not any(g[0] == "short" for g in b.ghost):
            b.ghost = b.ghost + (("short", I_.where(ins)),)
        S.nchar += 1
        S.ev.append(("blob", S.nchar, seq, st.facts, ins))
        I_.write(st, p, n, AV(0, (1 << 8 * n) - 1, frozenset([("blob", S.nchar)]), I_.T("blob", S.nchar)), ins)
        return [(st, 1), (b, 0)]
    summarised(I, S, rep, bits, lambda sub, name, n, sh: reader(sub, bits, name, n, sh, "a byte string"), emit)
    I.drop = ("Parse", 0)
    I.coarse = (0, 0xffffffff)
    outs = I.run("Parse", [S.file(I, "in"), Ptr(o, 0)], State())
    P = I.prover()
    acc = accepting(I, outs, P)
    at = "poik.c Parse (P%d)" % bits
    rep.count("IR instructions interpreted (Parse)", I.stats["instructions"])
    for p in I.hooks.problems:
        rep.violation("memory", p[1], p[2])
    if not acc:
        rep.error("Parse never succeeds")
        return None
    for s, x, base in acc:
        bad = [g for g in s.ghost if g[0] in ("short", "failed")]
        rep.ok("reading a proof succeeds only after every item was read", not bad, bad[0][1] if bad else at,
               "Parse can return true although this read failed")
    good = [(s, base) for s, x, base in acc if not any(g[0] in ("short", "failed") for g in s.ghost)]
    if len(good) != 1:
        if not rep.viol:
            rep.error("Parse: %d accepting outcomes" % len(good))
        return None
    s, base = good[0]
    A = Accepted(I, P)
    res = {}
    # tags
    def tagterm(i):
        v = I.read(s, Ptr(o, lay.tagoff(i)), lay.tagsize)
        if type(v) is G:
            ts = {I.term(y) if not (type(y) is AV and y.lo == y.hi) and type(y) is not int else None for g, y in v.alts if P.extend(base, g) is not None}
            ts.discard(None)
            return next(iter(ts)) if len(ts) == 1 else None
        return I.term(v)
    pos = {}
    for q, e in enumerate(ev):
        if e[0] in ("read", "fp2", "blob"):
            pos[e[1]] = q

    def possible(g, new, tl):
        if contradict(g, base[0]) or contradict(g, new):
            return False
        if all(l in base[0] or l in new for l in g):
            return True
        return P.extend(base, tl + list(g)) is not None

    def cells(off, n, new, tl):
        """token sources of bytes [off,off+n): list per byte"""
        out = []
        k = off
        for so, sz, v in I.read_slices(s, Ptr(o, off), n):
            alts = [y for g, y in v.alts if possible(g, new, tl)] if type(v) is G else [v]
            for b in range(sz):
                srcs = set()
                for y in alts:
                    lab = I.labels(y)
                    if "UNDEF" in lab or not lab:
                        return None, off + so + b
                    fp = [l[1] for l in lab if l[0] == "fp2"]
                    if fp:
                        kk = I.T.rev[I.term(y)]
                        if kk[0] == "fp2" and sz == pr.enc:
                            srcs.add(("fp2", fp[0], b))
                            continue
                        if kk[0] == "ext" and I.T.rev[kk[1]][0] == "fp2":
                            srcs.add(("fp2", fp[0], kk[2] + b))
                            continue
                        return None, off + so + b
                    fp = [l[1] for l in lab if l[0] == "blob"]
                    if fp:
                        kk = I.T.rev[I.term(y)]
                        bo = b if kk[0] == "blob" else kk[2] + b if kk[0] == "ext" and I.T.rev[kk[1]][0] == "blob" else None
                        if bo is None or len(fp) != 1:
                            return None, off + so + b
                        srcs.add(("blob", fp[0], bo))
                        continue
                    if sz != 1:
                        return None, off + so + b
                    hp = A.hexpair(I.term(y))
                    if hp is None:
                        return None, off + so + b
                    srcs.add(("hex",) + hp)
                if len(srcs) != 1:
                    return None, off + so + b
                out.append(next(iter(srcs)))
        return out, None
    head = []
    for nm, off in (("first statement curve", lay.E0), ("second statement curve", lay.E1)):
        c, w = cells(off, pr.enc, EMPTY, [])
        if not rep.ok("every field the verifier reads came from the input", c is not None, at, "byte %s of the %s may not come from the input" % (w, nm)):
            return None
        head.append((c, off))
    skipq = {q for q, e in enumerate(ev) if e[0] == "skip"}
    for i in range(lay.reps):
        tt = tagterm(i)
        lits = {}
        if not rep.ok("every response tag is read", tt is not None, at, "tag of repetition %d may not come from the input" % i):
            return None
        for k, v in TAGS:
            l = I.eqatom(tt, I.T("c", v & ((1 << 8 * lay.tagsize) - 1)))
            lits[k] = l
        if not rep.ok("unknown response tags are rejected by the reader", P.extend(base, [-l for l in lits.values()]) is None, at,
                      "repetition %d: a tag other than left/bottom/right is accepted" % i):
            return None
        for k, v in TAGS:
            new = P.extend(base, [lits[k]])
            if not rep.ok("every response kind can be read", new is not None, at, "repetition %d: response '%s' is never accepted" % (i, k)):
                return None
            srcs = {}
            for f, (off, sz) in sorted((f, x) for f, x in lay.fields[k].items() if f != "chain#"):
                a = lay.resp + i * lay.rsize + off
                c, w = cells(a, sz, new, [lits[k]])
                if not rep.ok("every field the verifier reads came from the input", c is not None, at,
                              "repetition %d, response '%s': byte %s of field %s may not come from the input" % (i, k, (w or 0) - a, f)):
                    return None
                for b, src in enumerate(c):
                    if src[0] == "hex":
                        for h in src[1:]:
                            vals = A.values(h, base, new)
                            if not rep.ok("hexadecimal positions accept only hexadecimal digits", vals <= HEX and len(vals) >= 16, at,
                                          "repetition %d, response '%s', field %s: a character other than a hexadecimal digit is accepted" % (i, k, f)):
                                return None
                        srcs[src[1]] = ("hi", a + b)
                        srcs[src[2]] = ("lo", a + b)
                    elif src[0] == "blob":
                        srcs.setdefault(src[1], ("blob", {}))[1][src[2]] = a + b
                    elif src[2] == 0:
                        srcs[src[1]] = ("fp2", a + b)
            # order of consumption
            first = I.T.rev[tt]
            seq = sorted(((pos[c], t) for c, t in srcs.items()), key=lambda q: q[0])
            if first[0] == "chr":
                seq = [(pos[first[1]], ("tag", lay.tagoff(i)))] + seq
            out = []
            for q, t in seq:
                e = ev[q]
                if e[0] == "blob":
                    for b, (sk, x) in enumerate(e[2]):
                        out.append((sk or (b == 0 and q - 1 in skipq), (x[0], t[1].get(x[1])) if x[0] in ("hi", "lo") else x))
                    continue
                sk = e[0] == "fp2" or e[2][-1] is True or (q - 1 in skipq)
                out.append((sk, t))
            res[i, k] = out
    h = []
    for c, off in head:
        h.append((True, ("fp2", off)) if all(x[0] == "fp2" and x[2] == b for b, x in enumerate(c)) else (True, None))
    res["head"] = h
    # every other character read must be constrained (nothing is silently dropped)
    return res, lay


def dump_all(rep, bits):
    ev = []
    pr = prims.P(bits)
    I, S = interp(bits, ev, ("out",))
    lay = layout.Proof(I.mods[0])
    taglit = {}
    for i in range(lay.reps):
        for k in ("left", "bottom", "right"):
            taglit[i, k] = I.A("tag", i, k)
        for k in ("left", "bottom", "right"):
            I.A.impl[taglit[i, k]] = frozenset(-taglit[i, q] for q in ("left", "bottom", "right") if q != k)
    tagat = {lay.tagoff(i): i for i in range(lay.reps)}

    def default(I_, ob, off, n):
        i = tagat.get(off)
        if i is not None and n == lay.tagsize:
            return G(tuple((frozenset([taglit[i, k]]), v) for k, v in TAGS))
        return I_.input("prf", off, n, EMPTY)
    o = I.root("prf", lay.size, default)

    def dump_fp2(I_, st, args, ins):
        p = I_.prune(args[1], st.facts)
        return S.wrote(I_, st, S.name(I_, st, args[0]), ins, 1, 0, [("fp2", p)])
    I.prims["Dump_Fp2"] = dump_fp2

    def emit(I_, st, args, ins, p, n, seq, name):
        pl = []
        for t in seq:
            if t[0] == "hi":
                pl.append(("hexat", p, t[1]))
            elif t[0] == "lit":
                pl.append(("chr", t[1]))
            elif t[0] != "lo":
                pl.append(t)
        return S.wrote(I_, st, S.name(I_, st, args[0]), ins, 1, 0, pl)
    summarised(I, S, rep, bits, lambda sub, name, n, sh: writer(sub, bits, name, n, sh, "a byte string"), emit)
    I.drop = ("Dump", 0)
    I.coarse = (0, 0xffffffff)
    outs = I.run("Dump", [S.file(I, "out"), Ptr(o, 0)], State())
    P = I.prover()
    acc = accepting(I, outs, P)
    at = "poik.c Dump (P%d)" % bits
    rep.count("IR instructions interpreted (Dump)", I.stats["instructions"])
    for p in I.hooks.problems:
        rep.violation("memory", p[1], p[2])
    if not acc:
        rep.error("Dump never succeeds")
        return None
    for s, x, base in acc:
        bad = [g for g in s.ghost if g[0] in ("werr", "failed")]
        rep.ok("writing a proof reports every failed write", not bad, bad[0][1] if bad else at,
               "Dump can return true although this write failed")
    res = {"head": []}
    cur = {}
    sites = set()
    lit2 = {l: k for k, l in taglit.items()}
    for e in ev:
        if e[0] != "write":
            continue
        sites.add(e[4])
        ks = [lit2[l] for l in e[3] if l in lit2]
        toks = []
        for t in tokens(I, e[2]):
            if t[0] in ("hi", "lo"):
                v = t[1]
                kk = I.T.rev[I.term(v)] if type(v) is AV else ("?",)
                toks.append((t[0], kk[2] if kk[0] == "in" and kk[1] == "prf" and kk[3] == 1 else None))
            elif t[0] == "hexat":
                p = t[1]
                q = p.off + t[2] if type(p) is Ptr and p.obj is o and t[2] is not None else None
                toks += [("hi", q), ("lo", q)]
            elif t[0] == "fp2":
                p = t[1]
                toks.append(("fp2", p.off if type(p) is Ptr and p.obj is o else None))
            elif t[0] == "conv":
                v = t[2]
                vals = sorted(x for _, x in v.alts) if type(v) is G and all(type(x) is int for _, x in v.alts) else [v] if type(v) is int else None
                toks.append(("tagval", t[1], vals))
            else:
                toks.append(t)
        cur.setdefault("order", []).append((frozenset(ks), e[3], toks))
    # assign events to repetitions: a tag item starts a repetition
    i = -1
    for ks, facts, toks in cur.get("order", ()):
        for t in toks:
            if t[0] == "tagval":
                _, conv, vals = t
                kinds = [k for k, v in TAGS if vals is not None and v in vals]
                if len(vals or ()) == 3 or (i + 1, "left") not in res:
                    i += 1
                for k, v in TAGS:
                    if vals and v in vals:
                        res.setdefault((i, k), []).append(("tag", lay.tagoff(i)) if conv[4] in "di" and conv[3] == "" else ("conv", conv))
                continue
            if i < 0:
                res["head"].append(t)
                continue
            mine = [k for k in ("left", "bottom", "right") if taglit[i, k] in facts] if i < lay.reps else []
            for k in mine or ("left", "bottom", "right"):
                res.setdefault((i, k), []).append(t)
    rep.count("write sites in the proof writer", len(sites))
    return res, lay


def formats(rep, bits, what):
    """what: 'read' (C06) or 'write' (C07)"""
    if what == "write":
        writer(rep, bits)
        dump_all(rep, bits)
        return
    rd = reader(rep, bits)
    from .report import Report
    quiet = Report("x")
    wr = writer(quiet, bits)
    if rd is not None and wr is not None:
        compare(rep, "reader and writer agree on the form of a curve", "poik.c Dump_Fp2/Parse_Fp2 (P%d)" % bits, wr, rd)
    r = parse_all(rep, bits)
    w = dump_all(quiet, bits)
    if r is None or w is None:
        return
    R, lay = r
    W, _ = w
    at = "poik.c Dump/Parse (P%d)" % bits
    compare(rep, "reader and writer agree on the statement", at, W["head"], R["head"])
    for i in range(lay.reps):
        for k, _ in TAGS:
            if not compare(rep, "reader and writer agree on every response", at + " repetition %d '%s'" % (i, k), W.get((i, k), []), R.get((i, k), [])):
                return
