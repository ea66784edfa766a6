"""The sponge construction of fips202.c: abstract runs with the permutation as boundary, byte-wise linear terms."""
import os
from . import build, ai, ir
from .ai import AV, G, Ptr, EMPTY, AnalysisError, State

PERM = "KeccakF1600_StatePermute"


class Bytes:
    """terms as bytes: every byte a constant and an xor of atoms"""

    def __init__(self, I):
        self.I, self.memo = I, {}

    def of(self, t, i):
        """(constant, frozenset of atoms) of byte i, or None"""
        key = (t, i)
        if key not in self.memo:
            self.memo[key] = self._of(t, i)
        return self.memo[key]

    def _of(self, t, i):
        k = self.I.T.rev[t]
        op = k[0]
        if op == "c":
            return (k[1] >> 8 * i) & 255, EMPTY
        if op == "in":
            return (0, frozenset([("in", k[1], k[2] + i)])) if i < k[3] else (0, EMPTY)
        if op == "perm":
            return (0, frozenset([("perm", k[1], k[2] * 8 + i)])) if i < 8 else (0, EMPTY)
        if op == "ext":
            return self.of(k[1], k[2] + i) if i < k[3] else (0, EMPTY)
        if op == "cat":
            p = 0
            for j in range(1, len(k), 2):
                if i < p + k[j]:
                    return self.of(k[j + 1], i - p)
                p += k[j]
            return 0, EMPTY
        if op == "xor":
            c, s = 0, EMPTY
            for x in k[1]:
                b = self.of(x, i)
                if b is None:
                    return None
                c, s = c ^ b[0], s ^ b[1]
            return c, s
        if op in ("or", "and", "add", "shl", "lshr") and len(k) == 4:
            w, a, b = k[1:]
            if 8 * i >= w:
                return 0, EMPTY
            kb, ka = self.I.T.rev[b], self.I.T.rev[a]
            if op in ("shl", "lshr"):
                if kb[0] != "c" or kb[1] % 8:
                    return None
                j = i - kb[1] // 8 if op == "shl" else i + kb[1] // 8
                return self.of(a, j) if 0 <= 8 * j < w else (0, EMPTY)
            x, y = self.of(a, i), self.of(b, i)
            if x is None or y is None:
                return None
            if op == "and":
                for p, q in ((x, y), (y, x)):
                    if not p[1]:
                        if p[0] == 0:
                            return 0, EMPTY
                        if p[0] == 255:
                            return q
                return x if x == y else None
            if op == "or":
                for p, q in ((x, y), (y, x)):
                    if p == (0, EMPTY):
                        return q
                    if not p[1] and not q[1]:
                        return p[0] | q[0], EMPTY
                    if p == (255, EMPTY):
                        return p
                return x if x == y else None
            if op == "add":
                # no carries: at every byte one side is zero
                for j in range(w // 8):
                    p, q = self.of(a, j), self.of(b, j)
                    if p is None or q is None or (p != (0, EMPTY) and q != (0, EMPTY)):
                        return None
                return y if x == (0, EMPTY) else x
        if op == "trunc":
            return self.of(k[2], i) if 8 * i < k[1] else (0, EMPTY)
        return None


class Hooks:
    def __init__(self):
        self.problems = []

    def problem(self, I, kind, ins, msg, **kw):
        self.problems.append((kind, I.where(ins), msg))


def spec(n, rate, pad=0x1f):
    """blocks absorbed for a message of n bytes: [[(constant, atoms)]*rate]"""
    b = [(0, frozenset([("in", "m", i)])) for i in range(n)] + [(pad, EMPTY)]
    while len(b) % rate:
        b.append((0, EMPTY))
    c, a = b[-1]
    b[-1] = (c ^ 128, a)
    return [b[i:i + rate] for i in range(0, len(b), rate)]


class Run:
    def __init__(self, mod):
        self.perms = []
        self.hooks = Hooks()
        if PERM not in mod.funcs:
            raise AnalysisError("%s not found" % PERM)
        self.I = ai.Interp([mod], {PERM: self.perm}, hooks=self.hooks)
        self.I.splitz = False
        self.B = Bytes(self.I)

    def state(self, st, p):
        I, out = self.I, []
        for i in range(200):
            v = I.read(st, Ptr(p.obj, p.off + i), 1)
            v = I.prune(v, st.facts)
            out.append(self.byte(v))
        return out

    def byte(self, v):
        if type(v) is int:
            return v & 255, EMPTY
        t = self.I.term(v) if type(v) is AV else None
        return self.B.of(t, 0) if t is not None else None

    def perm(self, I, st, args, ins):
        p = I.prune(args[0], st.facts)
        if type(p) is not Ptr or type(p.off) is not int:
            raise AnalysisError("argument of the permutation at " + I.where(ins))
        n = len(self.perms)
        self.perms.append((self.state(st, p), I.where(ins)))
        for k in range(25):
            I.write(st, Ptr(p.obj, p.off + 8 * k), 8, AV(0, (1 << 64) - 1, EMPTY, I.T("perm", n, k)), ins)

    def msg(self, n):
        return self.I.root("m", max(n, 1), lambda I_, o, off, k: I_.input("m", off, k, EMPTY)) if n else self.I.root("m", 1, "undef")


def say(b):
    if b is None:
        return "something not computed by copying and xor"
    c, a = b
    l = []
    for x in sorted(a):
        l.append("message byte %d" % x[2] if x[0] == "in" and x[1] == "m" else "state byte %d after permutation %d" % (x[2], x[1] + 1) if x[0] == "perm" else str(x))
    if c or not l:
        l.append("0x%02x" % c)
    return " xor ".join(l)


def one(rep, mod, name, rate, n, outlen):
    """shakeNNN with one message length and one output length"""
    R = Run(mod)
    I = R.I
    o = I.root("o", max(outlen, 1), "undef")
    m = R.msg(n)
    outs = I.run(name, [Ptr(o, 0), outlen, Ptr(m, 0), n], State())
    where = "fips202.c %s" % name
    desc = "message of %d bytes, output of %d bytes" % (n, outlen)
    rep.count("IR instructions interpreted (hash)", I.stats["instructions"])
    if not rep.ok("hashing is straight-line in the data", len(outs) == 1, where, "%d outcomes for a %s" % (len(outs), desc)):
        return
    s = outs[0][0]
    blocks = spec(n, rate)
    nsq = (outlen + rate - 1) // rate
    want = len(blocks) + max(nsq - 1, 0) if nsq else len(blocks) - 1
    got = len(R.perms)
    # an output of zero bytes may or may not run the last permutation
    rep.ok("one permutation per block", got == want or (nsq == 0 and got == want + 1), where, "%d permutations for a %s, %d expected" % (got, desc, want))
    for k, (st, w) in enumerate(R.perms):
        bad = None
        for i in range(200):
            c, a = blocks[k][i] if k < len(blocks) and i < rate else (0, EMPTY)
            if k > 0:
                a = a ^ frozenset([("perm", k - 1, i)])
            if st[i] != (c, a):
                bad = (i, (c, a), st[i])
                break
        kind = "every message byte and the padding enter the state exactly once" if k < len(blocks) else "the state is not touched between output blocks"
        rep.ok(kind, bad is None, where, "" if bad is None else "%s: at permutation %d, state byte %d is %s; it should be %s" % (desc, k + 1, bad[0], say(bad[2]), say(bad[1])))
    last = len(blocks) - 1
    bad = None
    for i in range(outlen):
        b = R.byte(I.prune(I.read(s, Ptr(o, i), 1), s.facts))
        if b != (0, frozenset([("perm", last + i // rate, i % rate)])):
            bad = (i, b)
            break
    rep.ok("every output byte is the next state byte", bad is None, where, "" if bad is None else "%s: output byte %d is %s" % (desc, bad[0], say(bad[1])))
    acc = [p for p in R.hooks.problems if p[0] != "undef"]
    rep.ok("hashing stays in its buffers", not acc, acc[0][1] if acc else where, acc[0][2] if acc else "")


def absorb(rep, mod, name, rate, n):
    R = Run(mod)
    I = R.I
    so = I.root("s", 200, lambda I_, o, off, k: I_.input("s", off, k, EMPTY))
    m = R.msg(n)
    outs = I.run(name, [Ptr(so, 0), Ptr(m, 0), n], State())
    where = "fips202.c " + name
    desc = "message of %d bytes" % n
    if not rep.ok("hashing is straight-line in the data", len(outs) == 1, where, "%d outcomes for a %s" % (len(outs), desc)):
        return
    blocks = spec(n, rate)
    sts = [x for x, _ in R.perms] + [R.state(outs[0][0], Ptr(so, 0))]
    rep.ok("one permutation per block", len(sts) == len(blocks), where, "%d permutations for a %s, %d expected" % (len(sts) - 1, desc, len(blocks) - 1))
    # the state may be taken as it is, or be initialised
    for k, st in enumerate(sts[:len(blocks)]):
        bad = None
        for i in range(200):
            c, a = blocks[k][i] if i < rate else (0, EMPTY)
            prev = frozenset([("perm", k - 1, i)]) if k else frozenset([("in", "s", i)])
            if st[i] != (c, a ^ prev):
                bad = (i, (c, a ^ prev), st[i])
                break
        rep.ok("every message byte and the padding enter the state exactly once", bad is None, where,
               "" if bad is None else "%s: in block %d, state byte %d is %s; it should be %s" % (desc, k + 1, bad[0], say(bad[2]), say(bad[1])))


def squeeze(rep, mod, name, rate, n):
    R = Run(mod)
    I = R.I
    so = I.root("s", 200, lambda I_, o, off, k: I_.input("s", off, k, EMPTY))
    o = I.root("o", max(1, n * rate), "undef")
    outs = I.run(name, [Ptr(o, 0), n, Ptr(so, 0)], State())
    where = "fips202.c " + name
    if not rep.ok("hashing is straight-line in the data", len(outs) == 1, where, "%d outcomes" % len(outs)):
        return
    rep.ok("one permutation per block", len(R.perms) == n, where, "%d permutations for %d blocks" % (len(R.perms), n))
    bad = None
    for i in range(n * rate):
        b = R.byte(I.prune(I.read(outs[0][0], Ptr(o, i), 1), outs[0][0].facts))
        if b != (0, frozenset([("perm", i // rate, i % rate)])):
            bad = (i, b)
            break
    rep.ok("every output byte is the next state byte", bad is None, where, "" if bad is None else "%d blocks: output byte %d is %s" % (n, bad[0], say(bad[1])))
    end = R.state(outs[0][0], Ptr(so, 0))
    ok = all(end[i] == (0, frozenset([("perm", n - 1, i)]) if n else frozenset([("in", "s", i)])) for i in range(200))
    rep.ok("the state is not touched between output blocks", ok, where, "the state after %d blocks is not the permuted state" % n)


# ------------------------------------------------------------------ round constants
def roundconsts():
    """the 24 round constants from the LFSR of FIPS 202"""
    out, r = [], 1
    for rnd in range(24):
        c = 0
        for j in range(7):
            if r & 1:
                c |= 1 << ((1 << j) - 1)
            r <<= 1
            if r & 256:
                r ^= 0x171
        out.append(c)
    return out


def constants(rep, mod):
    rc = roundconsts()
    found = 0
    for n, g in mod.globals.items():
        vals = flat(g.init)
        if vals is None or len(vals) != 24:
            continue
        found += 1
        bad = [i for i in range(24) if vals[i] != rc[i]]
        rep.ok("round constants are those of FIPS 202", not bad, "fips202.c " + n, "constant %d is 0x%016x" % (bad[0], vals[bad[0]]) if bad else "")
    rep.count("round constant tables", found)


def flat(x):
    if type(x) is int:
        return [x]
    if type(x) is tuple and len(x) == 2 and type(x[0]) is ir.Ty:
        return flat(x[1])
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            if type(y) is str:
                continue
            f = flat(y)
            if f is None:
                return None
            out += f
        return out
    return None


def lengths(rep, name, rate, ns, outlen):
    mod = build.misc()[1]
    for n in ns:
        one(rep, mod, name, rate, n, outlen)


def outputs(rep, name, rate, n, outs):
    mod = build.misc()[1]
    for o in outs:
        one(rep, mod, name, rate, n, o)


def pieces(rep, rate, ns):
    mod = build.misc()[1]
    bits = {168: "128", 136: "256"}[rate]
    for n in ns:
        absorb(rep, mod, "shake%s_absorb" % bits, rate, n)
    for n in range(0, 5):
        squeeze(rep, mod, "shake%s_squeezeblocks" % bits, rate, n)
    constants(rep, mod)
