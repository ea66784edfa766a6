"""Abstract interpreter over LLVM IR.

Domains (all over-approximations, joined at control-flow merges):
  * unsigned intervals for integers of any width (a field element is one wide integer cell),
  * dependency labels (which inputs / which random draws / which uninitialised bytes a value may depend on),
  * Herbrand value numbers ("terms"): two values with the same term are equal on every execution,
  * must-facts: literals over atoms that hold on every execution reaching the point, with guarded values
    (finite case splits) so that `ok = a && b` and `if (!ok) return` carry facts without enumerating paths,
  * a small typestate ("ghost") that partitions states.
Loops are unrolled while their exit test is decided by the abstract state (constant counters) and otherwise
run to a fixpoint with widening.  No solver and no path enumeration is involved.
"""
from .ir import L, GRef, UNDEF, IRError, int_ty, PTR

EMPTY = frozenset()


class AnalysisError(Exception):
    pass


# ------------------------------------------------------------------ terms and atoms
class Terms:
    def __init__(self):
        self.tab = {}
        self.rev = []
        self.av = {}
        self.rng = {}        # hull of the intervals a term was seen with
        self.fresh_n = 0

    def see(self, t, lo, hi):
        g = self.rng.get(t)
        if g is None:
            self.rng[t] = (lo, hi)
        elif lo < g[0] or hi > g[1]:
            self.rng[t] = (min(lo, g[0]), max(hi, g[1]))

    def __call__(self, *k):
        i = self.tab.get(k)
        if i is None:
            i = self.tab[k] = len(self.rev)
            self.rev.append(k)
        return i

    def fresh(self, *k):
        self.fresh_n += 1
        return self(*(k + ("#", self.fresh_n)))

    def op(self, i):
        return self.rev[i]

    def show(self, i, d=4):
        if i is None:
            return "?"
        k = self.rev[i]
        if d == 0:
            return "t%d" % i
        if k[0] == "c":
            return hex(k[1])
        return "%s(%s)" % (k[0], ",".join(self.show(x, d - 1) if isinstance(x, int) and j and k[0] not in RAW else
                                            (str(x) if not isinstance(x, tuple) else "..") for j, x in enumerate(k) if j))


RAW = {"in", "undef", "rnd", "phi", "join", "c"}   # operators whose arguments are not terms


class Atoms:
    def __init__(self):
        self.tab = {}
        self.rev = [None]
        self.impl = {}
        self.fresh_n = 0

    def __call__(self, *k):
        i = self.tab.get(k)
        if i is None:
            i = self.tab[k] = len(self.rev)
            self.rev.append(k)
        return i

    def fresh(self, *k):
        self.fresh_n += 1
        return self(*(k + ("#", self.fresh_n)))

    def show(self, lit):
        return ("" if lit > 0 else "not ") + str(self.rev[abs(lit)])


def contradict(a, b):
    if len(a) > len(b):
        a, b = b, a
    for x in a:
        if -x in b:
            return True
    return False


# ------------------------------------------------------------------ values
class AV:
    __slots__ = ("lo", "hi", "lab", "tm", "z")

    def __init__(self, lo, hi, lab=EMPTY, tm=None, z=None):
        self.lo, self.hi, self.lab, self.tm, self.z = lo, hi, lab, tm, z

    def __repr__(self):
        return "AV[%x,%x]%s t%s" % (self.lo, self.hi, set(self.lab) or "", self.tm)


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "&%s+%r" % (self.obj.name, self.off)

    def __eq__(self, o):
        return type(o) is Ptr and o.obj is self.obj and o.off == self.off

    def __hash__(self):
        return hash((id(self.obj), self.off if isinstance(self.off, int) else 0))


class Fn:
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return "&" + self.name

    def __eq__(self, o):
        return type(o) is Fn and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class G:
    """guarded value: exactly one alternative applies; its guard literals then hold"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "G" + repr([(sorted(g), v) for g, v in self.alts])


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Obj:
    __slots__ = ("name", "size", "kind", "default", "fnact", "site", "n")
    _n = 0

    def __init__(self, name, size, kind, default="undef", site=None):
        self.name, self.size, self.kind, self.default, self.site = name, size, kind, default, site
        Obj._n += 1
        self.n = Obj._n

    def __repr__(self):
        return "<%s>" % self.name


class MObj:
    """contents of one object: disjoint cells, sorted by offset"""
    __slots__ = ("cells", "keys", "sync")

    def __init__(self):
        self.cells = {}
        self.keys = []

    def copy(self):
        m = MObj()
        m.cells = dict(self.cells)
        m.keys = list(self.keys)
        return m


from bisect import bisect_right, bisect_left, insort


class State:
    __slots__ = ("mem", "own", "facts", "ghost", "pcl")

    def __init__(self):
        self.mem = {}
        self.own = set()
        self.facts = EMPTY
        self.ghost = ()
        self.pcl = EMPTY

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        self.own = set()
        s.facts, s.ghost, s.pcl = self.facts, self.ghost, self.pcl
        return s


def same(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is not tb:
        return False
    if ta is int:
        return a == b
    if ta is AV:
        return a.lo == b.lo and a.hi == b.hi and a.lab == b.lab and a.tm == b.tm and (a.tm is not None or a.z == b.z)
    if ta is Ptr:
        return a.obj is b.obj and (same(a.off, b.off))
    if ta is Fn:
        return a.name == b.name
    if ta is G:
        return len(a.alts) == len(b.alts) and all(x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a.alts, b.alts))
    if ta is Agg:
        return len(a.v) == len(b.v) and all(same(x, y) for x, y in zip(a.v, b.v))
    return False


class Stop(Exception):
    """path ends (abort, exit)"""


class Interp:
    CAP = 8

    oracle = None
    splitz = True

    def __init__(self, mods, prims=None, terms=True, hooks=None, unroll_k=3, max_unroll=20000):
        self.mods = mods
        self.ext = {}
        for m in mods:
            for n, f in m.funcs.items():
                if not f.internal:
                    self.ext.setdefault(n, f)
        self.T = Terms()
        self.A = Atoms()
        self.terms = terms
        self.prims = dict(prims or {})
        self.hooks = hooks
        self.K = unroll_k
        self.max_unroll = max_unroll
        self.gobj = {}
        self.stack = []
        self.st = State()
        self.stats = {"instructions": 0, "calls": 0, "joins": 0, "prims": 0}
        self.fn_seen = set()
        self.defs = {}
        self.oob = []
        self.notes = set()
        self.calls_seen = set()
        self.eqconst = {}
        self.implicit = False
        self.split_ret = False
        self.coarse = ()         # constants that mean failure: such outcomes of one function are represented by one of them
        self.drop = None         # (function, value): outcomes of this function with this constant result are not followed
        self.dropped = 0

    # -------------------------------------------------------------- small helpers
    def loc(self, ins):
        return ins.fn.mod.loc(ins.dbg) if ins is not None else "?"

    def where(self, ins):
        return "%s in %s" % (self.loc(ins), ins.fn.name) if ins is not None else "?"

    def cterm(self, v):
        return self.T("c", v)

    def term(self, v):
        """term of a plain value"""
        if type(v) is int:
            return self.T("c", v)
        if type(v) is AV:
            return v.tm
        if type(v) is Ptr and type(v.off) is int:
            return self.T("ptr", v.obj.name, v.obj.n, v.off)
        return None

    def labels(self, v):
        t = type(v)
        if t is AV:
            return v.lab
        if t is G:
            r = EMPTY
            for _, x in v.alts:
                r = r | self.labels(x)
            return r
        if t is Ptr and type(v.off) is not int:
            return self.labels(v.off)
        if t is Agg:
            r = EMPTY
            for x in v.v:
                r = r | self.labels(x)
            return r
        return EMPTY

    def input(self, name, off, n, lab):
        tm = self.T("in", name, off, n) if self.terms else None
        return AV(0, (1 << (8 * n)) - 1, lab, tm)

    def unknown(self, bits, lab=EMPTY, tm=None):
        return AV(0, (1 << bits) - 1, lab, tm)

    # -------------------------------------------------------------- facts
    def close(self, lits):
        out = set()
        todo = list(lits)
        impl = self.A.impl
        while todo:
            l = todo.pop()
            if l in out:
                continue
            out.add(l)
            m = impl.get(l)
            if m:
                todo.extend(m)
        return out

    def assume(self, st, lits):
        """returns False when contradictory"""
        new = [l for l in lits if l not in st.facts]
        if not new:
            return True
        add = self.close(new)
        f = st.facts
        for l in add:
            if -l in f:
                return False
        st.facts = f | add
        return True

    def mkor(self, s1, s2):
        if not s1 or not s2:
            return EMPTY

        def dis(s):
            if len(s) == 1:
                (l,) = s
                if l > 0:
                    k = self.A.rev[l]
                    if k[0] == "or":
                        return set(k[1])
            return {frozenset(s)}
        d = dis(s1) | dis(s2)
        if len(d) > 16:
            return EMPTY
        # absorb supersets
        d = {x for x in d if not any(y < x for y in d)}
        if len(d) == 1:
            return next(iter(d))
        return frozenset([self.A("or", frozenset(d))])

    def mkG(self, alts):
        """normalise list of (guard, value)"""
        out = []
        for g, v in alts:
            if type(v) is G:
                for g2, v2 in v.alts:
                    if not contradict(g, g2):
                        out.append((g | g2, v2))
            else:
                out.append((g, v))
        merged = []
        for g, v in out:
            for k, (g0, v0) in enumerate(merged):
                if same(v0, v):
                    c = g0 & g
                    merged[k] = (c | self.mkor(g0 - c, g - c), v0)
                    break
            else:
                merged.append((g, v))
        if len(merged) == 1:
            return merged[0][1]
        if len(merged) > self.CAP and not any(type(v) in (Ptr, Fn) for _, v in merged):
            v = merged[0][1]
            for _, w in merged[1:]:
                v = self.jflat(v, w)
            return v
        return G(tuple(merged))

    def contra(self, g, facts):
        """guard g cannot hold together with facts"""
        rev = self.A.rev
        for l in g:
            if -l in facts:
                return True
            if l > 0 and rev[l][0] == "or":
                for d in rev[l][1]:
                    if not contradict(d, facts):
                        break
                else:
                    return True
        return False

    def prune(self, v, facts):
        if type(v) is not G:
            return v
        alts = [(g, x) for g, x in v.alts if not self.contra(g, facts)]
        if len(alts) == len(v.alts):
            return v
        if not alts:
            return v.alts[0][1]
        if len(alts) == 1:
            return alts[0][1]
        return G(tuple(alts))

    # -------------------------------------------------------------- joins
    def jflat(self, a, b, tm=None, widen=None):
        """join without guards"""
        if a is b:
            return a
        if type(a) is G:
            v = a.alts[0][1]
            for _, w in a.alts[1:]:
                v = self.jflat(v, w)
            a = v
        if type(b) is G:
            v = b.alts[0][1]
            for _, w in b.alts[1:]:
                v = self.jflat(v, w)
            b = v
        if type(a) is G or type(b) is G:       # pointer alternatives
            return self.mkG(self._galts(a) + self._galts(b))
        if same(a, b):
            return a
        ta, tb = type(a), type(b)
        if ta in (int, AV) and tb in (int, AV):
            al, ah, la = (a, a, EMPTY) if ta is int else (a.lo, a.hi, a.lab)
            bl, bh, lb = (b, b, EMPTY) if tb is int else (b.lo, b.hi, b.lab)
            if tm is None and self.terms:
                x, y = self.term(a), self.term(b)
                if x is not None and x == y:
                    tm = x
                else:
                    tm = self.jterm(x, y)
            if tm is not None:
                self.T.see(tm, min(al, bl), max(ah, bh))
            return AV(min(al, bl), max(ah, bh), la | lb, tm)
        if ta is Ptr and tb is Ptr and a.obj is b.obj:
            return Ptr(a.obj, self.jflat(a.off & ((1 << 64) - 1) if type(a.off) is int else a.off,
                                         b.off & ((1 << 64) - 1) if type(b.off) is int else b.off))
        if ta is Agg and tb is Agg and len(a.v) == len(b.v):
            return Agg([self.jflat(x, y) for x, y in zip(a.v, b.v)])
        if ta in (Ptr, Fn) or tb in (Ptr, Fn):
            g = self.A.fresh("j")
            return G(((frozenset([g]), a), (frozenset([-g]), b)))
        return AV(0, (1 << 64) - 1, self.labels(a) | self.labels(b))

    def jterm(self, x, y):
        """join of two different terms; subclass rules (e.g. power families) via hooks"""
        if self.hooks and hasattr(self.hooks, "jterm") and x is not None and y is not None:
            r = self.hooks.jterm(self, x, y)
            if r is not None:
                return r
        return self.T.fresh("join")

    def _galts(self, v):
        return list(v.alts) if type(v) is G else [(EMPTY, v)]

    def jguard(self, a, b, g, lab=EMPTY):
        if same(a, b):
            return a
        if lab:
            a = self.addlab(a, lab)
            b = self.addlab(b, lab)
        aa = a if type(a) is not G or len(a.alts) <= self.CAP // 2 else self.jflat(a, a.alts[0][1])
        bb = b if type(b) is not G or len(b.alts) <= self.CAP // 2 else self.jflat(b, b.alts[0][1])
        return self.mkG([(frozenset([g]) | x, v) for x, v in self._galts(aa)] +
                        [(frozenset([-g]) | x, v) for x, v in self._galts(bb)])

    def addlab(self, v, lab):
        t = type(v)
        if t is int:
            return AV(v, v, lab, self.T("c", v) if self.terms else None)
        if t is AV:
            return AV(v.lo, v.hi, v.lab | lab, v.tm, v.z)
        if t is G:
            return G(tuple((g, self.addlab(x, lab)) for g, x in v.alts))
        return v

    def join(self, ea, sa, eb, sb, guard=True):
        """join (env,state) pairs with equal ghost; result owns nothing shared"""
        self.stats["joins"] += 1
        common = sa.facts & sb.facts
        lab = (sa.pcl | sb.pcl) if self.implicit else EMPTY
        if guard:
            # a pre-existing distinguishing literal keeps case splits small
            g = None
            for l in sa.facts:
                if -l in sb.facts:
                    g = l
                    break
            fresh = self.A.fresh("at")
            self.A.impl[fresh] = sa.facts - common
            self.A.impl[-fresh] = sb.facts - common
            jv = lambda x, y: self.jguard(x, y, fresh, lab)
        else:
            jv = (lambda x, y: self.jflat(self.addlab(x, lab), self.addlab(y, lab))) if lab else self.jflat
        s = State()
        s.ghost = sa.ghost
        s.pcl = sa.pcl | sb.pcl
        s.facts = common
        if guard:
            # "this merge was passed": one of its two sides was taken
            s.facts = common | {self.A("or", frozenset((frozenset((fresh,)), frozenset((-fresh,)))))}
        env = None
        if ea is not None:
            env = [None] * len(ea)
            for i in range(len(ea)):
                x, y = ea[i], eb[i]
                if x is y:
                    env[i] = x
                elif x is None or y is None:
                    env[i] = None
                else:
                    env[i] = jv(x, y)
        ma, mb = sa.mem, sb.mem
        for o, x in ma.items():
            y = mb.get(o)
            if x is y:
                s.mem[o] = x
            elif y is None:
                if o.kind == "heap":      # allocated on one side only
                    s.mem[o] = x
                elif o.kind in ("input", "global"):      # untouched on the other side
                    s.mem[o] = self.jobj(o, x, self.ginit(o) if o.kind == "global" else MObj(), jv)
            else:
                s.mem[o] = self.jobj(o, x, y, jv)
        for o, y in mb.items():
            if o not in ma:
                if o.kind == "heap":
                    s.mem[o] = y
                elif o.kind in ("input", "global"):
                    s.mem[o] = self.jobj(o, self.ginit(o) if o.kind == "global" else MObj(), y, jv)
        return env, s

    def jobj(self, o, x, y, jv):
        if x.cells == y.cells:
            return x
        m = MObj()
        cx, cy = x.cells, y.cells
        if x.keys == y.keys and all(cx[k][0] == cy[k][0] for k in x.keys):
            for k in x.keys:
                n, v = cx[k]
                w = cy[k][1]
                m.cells[k] = (n, v if v is w else jv(v, w))
            m.keys = list(x.keys)
            return m
        # only the regions where the two differ need work; refine those to common boundaries
        iv = sorted((k, k + e[0]) for k, e in cx.items() ^ cy.items())
        regs = []
        for lo, hi in iv:
            if regs and lo <= regs[-1][1]:
                regs[-1][1] = max(hi, regs[-1][1])
            else:
                regs.append([lo, hi])
        m.cells = dict(cx)
        for lo, hi in regs:
            self._jregion(o, x, y, jv, lo, hi, m)
        m.keys = sorted(m.cells)
        return m

    def _jregion(self, o, x, y, jv, rlo, rhi, m):
        cx, cy = x.cells, y.cells
        pts = {rlo, rhi}
        for mm in (x, y):
            c = mm.cells
            i = bisect_left(mm.keys, rlo)
            while i < len(mm.keys) and mm.keys[i] < rhi:
                k = mm.keys[i]
                pts.add(k)
                pts.add(k + c[k][0])
                if mm is x:
                    del m.cells[k]
                i += 1
        pts = sorted(pts)
        covx, covy = self._cover(x), self._cover(y)
        i = 0
        while i < len(pts) - 1:
            lo = pts[i]
            # largest exact cell at lo on either side not cut by the other's cells
            n = None
            for c, other in ((cx, y), (cy, x)):
                e = c.get(lo)
                if e:
                    if not self._cuts(other, lo, e[0]):
                        n = max(n or 0, e[0])
            if n is None:
                n = pts[i + 1] - lo
                if not (covx(lo) or covy(lo)):
                    i += 1
                    continue
            v = self._rd(o, x, lo, n)
            w = self._rd(o, y, lo, n)
            m.cells[lo] = (n, v if v is w else jv(v, w))
            while i < len(pts) and pts[i] < lo + n:
                i += 1

    @staticmethod
    def _cover(m):
        def f(p):
            k = bisect_right(m.keys, p) - 1
            return k >= 0 and m.keys[k] + m.cells[m.keys[k]][0] > p
        return f

    @staticmethod
    def _cuts(m, lo, n):
        """does m have a cell boundary strictly inside [lo,lo+n)?"""
        k = bisect_right(m.keys, lo) - 1
        if k >= 0:
            a = m.keys[k]
            e = a + m.cells[a][0]
            if a < lo < e or lo < e < lo + n:
                return True
        k2 = bisect_right(m.keys, lo)
        return k2 < len(m.keys) and m.keys[k2] < lo + n

    # -------------------------------------------------------------- memory
    def default(self, o, off, n):
        d = o.default
        if d == "zero":
            return 0
        if d == "undef":
            return AV(0, (1 << (8 * n)) - 1, frozenset(["UNDEF"]), self.T("undef", o.name, o.n, off, n) if self.terms else None)
        return d(self, o, off, n)

    def _rd(self, o, m, off, n):
        c = m.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        keys = m.keys
        i = bisect_right(keys, off) - 1
        parts = []
        p = off
        end = off + n
        if i < 0 or keys[i] + m.cells[keys[i]][0] <= off:
            i += 1
        while p < end:
            if i < len(keys) and keys[i] <= p:
                k = keys[i]
                sz, v = m.cells[k]
                q = min(end, k + sz)
                parts.append((p - off, q - p, self.extract(v, p - k, q - p, sz)))
                p = q
                i += 1
            else:
                q = min(end, keys[i]) if i < len(keys) else end
                parts.append((p - off, q - p, self.default(o, p, q - p)))
                p = q
        if len(parts) == 1:
            return parts[0][2]
        return self.concat(parts)

    def extract(self, v, off, n, sz):
        if off == 0 and n == sz:
            return v
        t = type(v)
        if t is int:
            return (v >> (8 * off)) & ((1 << (8 * n)) - 1)
        if t is AV:
            mx = (1 << (8 * n)) - 1
            hi = v.hi >> (8 * off)
            if hi <= mx and (v.lo >> (8 * off)) == hi:
                # constant part, keep labels
                lo = hi
            else:
                lo = 0 if hi > mx else (v.lo >> (8 * off) if off + n >= sz else 0)
                hi = min(hi, mx)
            tm = None
            if v.tm is not None:
                tm = self.ext_term(v.tm, off, n, sz)
            if lo == hi and not v.lab:
                return lo
            return AV(lo, hi, v.lab, tm)
        if t is G:
            return self.mkG([(g, self.extract(x, off, n, sz)) for g, x in v.alts])
        return AV(0, (1 << (8 * n)) - 1, self.labels(v))

    def ext_term(self, t, off, n, sz):
        k = self.T.rev[t]
        if k[0] == "in":
            return self.T("in", k[1], k[2] + off, n)
        if k[0] == "undef":
            return self.T("undef", k[1], k[2], k[3] + off, n)
        if k[0] == "ext":
            return self.T("ext", k[1], k[2] + off, n, k[4])
        if k[0] == "c":
            return self.T("c", (k[1] >> (8 * off)) & ((1 << (8 * n)) - 1))
        if k[0] == "cat":
            # find part
            p = 0
            for i in range(1, len(k), 2):
                if p == off and k[i] == n:
                    return k[i + 1]
                if p <= off and off + n <= p + k[i]:
                    return self.ext_term(k[i + 1], off - p, n, k[i])
                p += k[i]
        return self.T("ext", t, off, n, sz)

    def concat(self, parts):
        """little-endian concatenation of (offset,size,value)"""
        if any(type(v) is G for _, _, v in parts):
            alts = [(EMPTY, [])]
            for o, n, v in parts:
                nxt = []
                for g, acc in alts:
                    for g2, x in self._galts(v):
                        if not contradict(g, g2):
                            nxt.append((g | g2, acc + [(o, n, x)]))
                alts = nxt
                if len(alts) > 32:
                    break
            if len(alts) <= 32:
                return self.mkG([(g, self.concat(p)) for g, p in alts])
            parts = [(o, n, v if type(v) is not G else self.jflat(v, v.alts[0][1])) for o, n, v in parts]
        if all(type(v) is int for _, _, v in parts):
            r = 0
            for o, _, v in parts:
                r |= v << (8 * o)
            return r
        lo = hi = 0
        lab = EMPTY
        tms = []
        for o, n, v in parts:
            if type(v) is int:
                lo |= v << (8 * o)
                hi |= v << (8 * o)
                tms.append((n, self.T("c", v) if self.terms else None))
            elif type(v) is AV:
                lo += v.lo << (8 * o)
                hi += v.hi << (8 * o)
                if v.lab:
                    lab = lab | v.lab
                tms.append((n, v.tm))
            else:
                hi += ((1 << (8 * n)) - 1) << (8 * o)
                tms.append((n, None))
                lab = lab | self.labels(v)
        tm = None
        if self.terms and all(t is not None for _, t in tms):
            tm = self.cat_term(tms)
        return AV(lo, hi, lab, tm)

    def cat_term(self, tms):
        out = []
        rev = self.T.rev
        for n, t in tms:
            if out:
                n0, t0 = out[-1]
                k0, k = rev[t0], rev[t]
                if k0[0] == "in" and k[0] == "in" and k0[1] == k[1] and k0[2] + n0 == k[2]:
                    out[-1] = (n0 + n, self.T("in", k[1], k0[2], n0 + n))
                    continue
                if k0[0] == "undef" and k[0] == "undef" and k0[2] == k[2] and k0[3] + n0 == k[3]:
                    out[-1] = (n0 + n, self.T("undef", k[1], k[2], k0[3], n0 + n))
                    continue
                if k0[0] == "ext" and k[0] == "ext" and k0[1] == k[1] and k0[2] + n0 == k[2]:
                    if k0[2] == 0 and n0 + n == k[4]:
                        out[-1] = (n0 + n, k[1])
                    else:
                        out[-1] = (n0 + n, self.T("ext", k[1], k0[2], n0 + n, k[4]))
                    continue
                if k0[0] == "c" and k[0] == "c":
                    out[-1] = (n0 + n, self.T("c", k0[1] | (k[1] << (8 * n0))))
                    continue
            out.append((n, t))
        if len(out) == 1:
            return out[0][1]
        flat = []
        for n, t in out:
            k = rev[t]
            if k[0] == "cat":
                flat.extend(k[1:])
            else:
                flat += [n, t]
        return self.T("cat", *flat)

    def mobj(self, st, o, ins=None):
        m = st.mem.get(o)
        if m is None:
            if o.kind == "global":
                m = st.mem[o] = self.ginit(o)
                return m
            if o.kind in ("input",):
                m = st.mem[o] = MObj()
                return m
            self.report("dangling", ins, "access to %s after its lifetime ended" % o.name)
            m = st.mem[o] = MObj()
        return m

    def report(self, kind, ins, msg, **kw):
        if self.hooks and hasattr(self.hooks, "problem"):
            self.hooks.problem(self, kind, ins, msg, **kw)
        else:
            self.oob.append((kind, self.where(ins), msg))

    def wmobj(self, st, o, ins=None):
        m = self.mobj(st, o, ins)
        if o not in st.own:
            m = st.mem[o] = m.copy()
            st.own.add(o)
        return m

    def offs(self, off):
        """signed interval of an offset"""
        if type(off) is int:
            return off, off
        if type(off) is G:
            r = [self.offs(v) for _, v in off.alts]
            return min(a for a, _ in r), max(b for _, b in r)
        lo, hi = off.lo, off.hi
        if lo >> 63 and hi >> 63:
            return lo - (1 << 64), hi - (1 << 64)
        if hi >> 63:
            return -(1 << 63), (1 << 63) - 1
        return lo, hi

    def check_bounds(self, st, p, n, ins, what):
        """returns (lo,hi) of offset, after reporting; clamps"""
        lo, hi = self.offs(p.off)
        sz = p.obj.size
        if self.hooks and hasattr(self.hooks, "access"):
            self.hooks.access(self, st, p, n, ins, what)
        if sz is not None and (lo < 0 or hi + n > sz) and lo >= 0 and type(p.off) is AV and p.off.tm is not None:
            u = self.upper(st, p.off, sz - n)
            if u is not None:
                hi = u
        if sz is not None and (lo < 0 or hi + n > sz):
            self.report("oob", ins, "%s of %d bytes at offset %s of %s (size %d)" %
                        (what, n, lo if lo == hi else "[%d,%d]" % (lo, hi), p.obj.name, sz), obj=p.obj)
            lo = max(0, lo)
            hi = max(lo, min(hi, sz - n))
            return lo, hi, False
        return lo, hi, True

    # -------------------------------------------------------------- linear reasoning over value numbers
    def lin(self, t, depth=0):
        """integer linear form of a 64-bit term: (constant, {leaf: coefficient}), exact modulo 2^64"""
        k = self.T.rev[t]
        if k[0] == "c":
            v = k[1]
            return (v - (1 << 64) if v >> 63 else v), {}
        if depth < 12 and k[0] in ("add", "sub") and k[1] == 64:
            c1, m1 = self.lin(k[2], depth + 1)
            c2, m2 = self.lin(k[3], depth + 1)
            s = 1 if k[0] == "add" else -1
            m = dict(m1)
            for x, q in m2.items():
                m[x] = m.get(x, 0) + s * q
                if not m[x]:
                    del m[x]
            return c1 + s * c2, m
        if depth < 12 and k[0] == "mul" and k[1] == 64:
            for a, b in ((k[2], k[3]), (k[3], k[2])):
                ka = self.T.rev[a]
                if ka[0] == "c":
                    c, m = self.lin(b, depth + 1)
                    q = ka[1] - (1 << 64) if ka[1] >> 63 else ka[1]
                    return c * q, {x: y * q for x, y in m.items() if y * q}
        return 0, {t: 1}

    def nowrap(self, t, facts=EMPTY):
        """the linear form of t equals its value as an integer (no modular wrap), by the ranges of its parts"""
        k = self.T.rev[t]
        if k[0] in ("add", "sub", "mul") and k[1] == 64:
            r = []
            for x in k[2:4]:
                if not self.nowrap(x, facts):
                    return False
                kx = self.T.rev[x]
                g = (kx[1], kx[1]) if kx[0] == "c" else self.T.rng.get(x)
                if g is None:
                    return False
                r.append(g)
            (al, ah), (bl, bh) = r
            if k[0] == "add":
                if bl >> 63:
                    return al + bl >= 1 << 64
                if al >> 63:
                    return al + bl >= 1 << 64
                return ah + bh < 1 << 64
            if k[0] == "sub":
                if al < bh and self.T.rev[k[2]][0] == "c":
                    return any(self.A.tab.get(("ult", k[3], self.T("c", c))) in facts for c in (al, al + 1))
                return al >= bh
            return ah * bh < 1 << 63
        return True

    def upper(self, st, off, limit):
        """largest provable value of off using ordering facts, or None if it may exceed limit"""
        c0, m0 = self.lin(off.tm)

        def best(c, m):
            r = c
            for x, q in m.items():
                g = self.T.rng.get(x)
                if g is None:
                    return None
                r += q * (g[1] if q > 0 else g[0])
            return r
        b = best(c0, m0)
        if b is not None and b <= limit and self.nowrap(off.tm, st.facts):
            return b
        rels = []
        for l in st.facts:
            k = self.A.rev[abs(l)]
            if k[0] in ("ult", "slt"):
                x, y, c = (k[1], k[2], -1) if l > 0 else (k[2], k[1], 0)
                cx, mx = self.lin(x)
                cy, my = self.lin(y)
                if k[0] == "slt" and not all((self.T.rng.get(t) or (0, 1 << 64))[1] < 1 << 63 for t in (x, y) if self.T.rev[t][0] != "c"):
                    continue
                if self.nowrap(x, st.facts) and self.nowrap(y, st.facts):
                    # x <= y + c
                    rels.append((cx, mx, cy + c, my))

        def sub(c, m, rel):
            cx, mx, cy, my = rel
            n = dict(m)
            for x, q in mx.items():
                n[x] = n.get(x, 0) - q
            for x, q in my.items():
                n[x] = n.get(x, 0) + q
            return c - cx + cy, {x: q for x, q in n.items() if q}
        for r in rels:
            if not any(x in m0 and q * m0[x] > 0 for x, q in r[1].items()):
                continue
            c1, m1 = sub(c0, m0, r)
            b = best(c1, m1)
            if b is not None and b <= limit:
                return b
            for r2 in rels:
                if r2 is r:
                    continue
                c2, m2 = sub(c1, m1, r2)
                b = best(c2, m2)
                if b is not None and b <= limit:
                    return b
        return None

    def read(self, st, p, n, ins=None):
        if type(p) is G:
            p = self.prune(p, st.facts)
            if type(p) is G:
                return self.mkG([(g, self.read(st, x, n, ins)) for g, x in p.alts if type(x) is Ptr] or
                                [(EMPTY, self.unknown(8 * n))])
        if type(p) is not Ptr:
            self.report("badptr", ins, "read through %r" % (p,))
            return self.unknown(8 * n, self.labels(p))
        if self.hooks is not None:
            self.hooks_addr(st, p, ins)
        lo, hi, ok = self.check_bounds(st, p, n, ins, "read")
        m = self.mobj(st, p.obj, ins)
        if lo == hi:
            if p.obj.size is not None and lo + n > p.obj.size and not ok:
                return self.unknown(8 * n)
            v = self._rd(p.obj, m, lo, n)
            if type(v) is G:
                v = self.prune(v, st.facts)
            return v
        # symbolic offset: join of everything in reach
        lab = self.labels(p.off)
        if hasattr(p.obj.default, "sym"):
            return p.obj.default.sym(self, st, p.obj, p.off, n)
        return self._rdrange(st, p.obj, m, lo, hi, n, lab)

    def _rdrange(self, st, o, m, lo, hi, n, lab):
        alo, ahi = None, 0
        l = lab
        i = max(0, bisect_right(m.keys, lo) - 1)
        covered = 0
        while i < len(m.keys) and m.keys[i] < hi + n:
            k = m.keys[i]
            sz, v = m.cells[k]
            if k + sz > lo:
                covered += min(k + sz, hi + n) - max(k, lo)
                if type(v) in (Ptr, Fn):
                    return self.unknown(8 * n, l)
                l = l | self.labels(v)
                if sz == n:
                    a, b = self.rng(v)
                    alo = a if alo is None else min(a, alo)
                    ahi = max(ahi, b)
                else:
                    alo, ahi = 0, (1 << (8 * n)) - 1
            i += 1
        if covered < hi + n - lo:
            d = self.default(o, lo, n)
            l = l | self.labels(d)
            a, b = self.rng(d)
            alo = a if alo is None else min(a, alo)
            ahi = max(ahi, b)
        return AV(alo or 0, ahi, l, self.T.fresh("rdx") if self.terms else None)

    def rng(self, v):
        if type(v) is int:
            return v, v
        if type(v) is AV:
            return v.lo, v.hi
        if type(v) is G:
            r = [self.rng(x) for _, x in v.alts]
            return min(a for a, _ in r), max(b for _, b in r)
        return 0, (1 << 64) - 1

    def write(self, st, p, n, v, ins=None):
        if type(p) is G:
            p = self.prune(p, st.facts)
        if type(p) is G:
            for g, x in p.alts:
                if type(x) is Ptr:
                    old = self.read(st, x, n, ins)
                    self.write(st, x, n, self.mkG([(g, v), (EMPTY, old)]) if not same(v, old) else v, ins)
            return
        if type(p) is not Ptr:
            self.report("badptr", ins, "write through %r" % (p,))
            return
        if self.hooks is not None:
            self.hooks_addr(st, p, ins)
        lo, hi, ok = self.check_bounds(st, p, n, ins, "write")
        o = p.obj
        if o.kind == "global" and getattr(o, "site", None) == "const":
            self.report("constwrite", ins, "write to constant %s" % o.name)
        m = self.wmobj(st, o, ins)
        if lo == hi:
            if not ok and o.size is not None and lo + n > o.size:
                return
            self._wr(o, m, lo, n, v)
            return
        # weak update
        lab = self.labels(p.off) | self.labels(v)
        self._wrweak(o, m, lo, hi + n, lab, v, n)

    def _wrweak(self, o, m, lo, hi, lab, v=None, n=None):
        self._cut(o, m, lo)
        self._cut(o, m, hi)
        a = bisect_left(m.keys, lo)
        b = bisect_left(m.keys, hi)
        p = lo
        fill = []
        for k in m.keys[a:b]:
            if k > p:
                fill.append((p, k - p))
            p = k + m.cells[k][0]
        if p < hi:
            fill.append((p, hi - p))
        for k in m.keys[a:b]:
            sz, old = m.cells[k]
            if type(old) in (Ptr, Fn):
                continue
            if v is not None and sz == n:
                m.cells[k] = (sz, self.jflat(old, v))
            else:
                m.cells[k] = (sz, AV(0, (1 << (8 * sz)) - 1, self.labels(old) | lab, self.T.fresh("wx") if self.terms else None))
        for k, sz in fill:
            d = self.default(o, k, sz)
            l2 = self.labels(d)
            if n and sz % n == 0 and sz // n <= 4096:
                for j in range(k, k + sz, n):
                    m.cells[j] = (n, self.jflat(self.default(o, j, n), v))
                    insort(m.keys, j)
            else:
                m.cells[k] = (sz, AV(0, (1 << (8 * sz)) - 1, l2 | lab, self.T.fresh("wx") if self.terms else None))
                insort(m.keys, k)

    def _cut(self, o, m, off):
        i = bisect_right(m.keys, off) - 1
        if i < 0:
            return
        k = m.keys[i]
        sz, v = m.cells[k]
        if k < off < k + sz:
            m.cells[k] = (off - k, self.extract(v, 0, off - k, sz))
            m.cells[off] = (k + sz - off, self.extract(v, off - k, k + sz - off, sz))
            m.keys.insert(i + 1, off)

    def _wr(self, o, m, off, n, v):
        c = m.cells.get(off)
        if c is not None and c[0] == n:
            m.cells[off] = (n, v)
            return
        self._cut(o, m, off)
        self._cut(o, m, off + n)
        a = bisect_left(m.keys, off)
        b = bisect_left(m.keys, off + n)
        for k in m.keys[a:b]:
            del m.cells[k]
        m.keys[a:b] = [off]
        m.cells[off] = (n, v)

    def hooks_addr(self, st, p, ins):
        if type(p.off) is not int and hasattr(self.hooks, "addr"):
            self.hooks.addr(self, st, p, ins)

    def memcpy(self, st, d, s, n, ins=None):
        if n == 0:
            return
        for x in (d, s):
            if type(x) is not Ptr:
                if type(x) is G:
                    break
                self.report("badptr", ins, "copy through %r" % (x,))
                return
        if type(d) is Ptr and type(s) is Ptr and type(d.off) is int and type(s.off) is int:
            if self.hooks and hasattr(self.hooks, "memcpy"):
                self.hooks.memcpy(self, st, d, s, n, ins)
            _, _, ok1 = self.check_bounds(st, s, n, ins, "read")
            _, _, ok2 = self.check_bounds(st, d, n, ins, "write")
            if not (ok1 and ok2):
                return
            sm = self.mobj(st, s.obj, ins)
            cells = self.slices(s.obj, sm, s.off, n)
            dm = self.wmobj(st, d.obj, ins)
            for o, sz, v in cells:
                if type(v) is G:
                    v = self.prune(v, st.facts)
                self._wr(d.obj, dm, d.off + o, sz, v)
            return
        v = self.read(st, s, n, ins)
        self.write(st, d, n, v, ins)

    def slices(self, o, m, off, n):
        """[(relative offset,size,value)] covering [off,off+n), cell-wise"""
        out = []
        p, end = off, off + n
        keys = m.keys
        i = bisect_right(keys, p) - 1
        if i < 0 or keys[i] + m.cells[keys[i]][0] <= p:
            i += 1
        while p < end:
            if i < len(keys) and keys[i] <= p:
                k = keys[i]
                sz, v = m.cells[k]
                q = min(end, k + sz)
                out.append((p - off, q - p, self.extract(v, p - k, q - p, sz)))
                p = q
                i += 1
            else:
                q = min(end, keys[i]) if i < len(keys) else end
                out.append((p - off, q - p, self.default(o, p, q - p)))
                p = q
        return out

    def read_slices(self, st, p, n, ins=None):
        """cell-wise view of memory for primitives"""
        if type(p) is G:
            p = self.prune(p, st.facts)
        if type(p) is not Ptr or type(p.off) is not int:
            return [(0, n, self.read(st, p, n, ins))]
        _, _, ok = self.check_bounds(st, p, n, ins, "read")
        if not ok:
            return [(0, n, self.unknown(8 * n))]
        return [(o, s, self.prune(v, st.facts)) for o, s, v in self.slices(p.obj, self.mobj(st, p.obj, ins), p.off, n)]

    def ginit(self, o):
        m = MObj()
        g = o.fnact
        if g is None or g.init is None:
            return m

        def put(ty, c, off):
            if c == ("zero",) or (type(c) is int and c == 0 and ty.k in ("arr", "struct")):
                for i in range(off, off + ty.size):
                    pass
                if ty.size:
                    z.append((off, ty.size))
                return
            if isinstance(c, tuple) and c[0] == "bytes":
                for i, b in enumerate(c[1]):
                    m.cells[off + i] = (1, b)
                return
            if isinstance(c, tuple) and c[0] == "agg":
                if ty.k == "struct":
                    for (et, ev), eo in zip(c[1], ty.offs):
                        put(et, ev, off + eo)
                else:
                    for i, (et, ev) in enumerate(c[1]):
                        put(et, ev, off + i * et.size)
                return
            if c is UNDEF:
                return
            if isinstance(c, GRef):
                m.cells[off] = (8, self.gref(c, g.mod))
                return
            if isinstance(c, tuple) and c[0] == "fp":
                return
            m.cells[off] = (ty.size, c)
        z = []
        put(g.ty, g.init, 0)
        o.default = "zero"
        m.keys = sorted(m.cells)
        return m

    def gref(self, g, mod):
        f = mod.funcs.get(g.name) or self.ext.get(g.name)
        if f is not None or g.name in mod.decls:
            return Fn(g.name, f)
        key = g.name
        gl = mod.globals.get(g.name)
        if gl is not None and gl.internal:
            key = (mod.name, id(mod), g.name)
        o = self.gobj.get(key)
        if o is None:
            d = gl
            if gl is None or gl.init is None:
                for m in self.mods:
                    x = m.globals.get(g.name)
                    if x is not None and x.init is not None and not x.internal:
                        d, mod = x, m
                        break
            if d is None:
                raise AnalysisError("global " + g.name)

            class GI:
                pass
            gi = GI()
            gi.init, gi.ty, gi.mod = d.init, d.ty, mod
            o = Obj(g.name, d.ty.size, "global", "zero" if d.init is not None else "undef", "const" if d.const else "var")
            if d.init is None:
                o.default = lambda I, ob, off, n: self.extern_default(ob, off, n)
            o.fnact = gi
            self.gobj[key] = o
        return Ptr(o, g.off)

    def extern_default(self, o, off, n):
        if n == 8 and o.name in ("stdin", "stdout", "stderr"):
            fo = self.gobj.get(("FILE", o.name))
            if fo is None:
                fo = self.gobj[("FILE", o.name)] = Obj("*" + o.name, None, "input", "undef")
            return Ptr(fo, 0)
        return self.input("extern:" + o.name, off, n, EMPTY)

    # -------------------------------------------------------------- arithmetic
    def lift2(self, f, a, b, facts):
        if type(a) is not G and type(b) is not G:
            return f(a, b)
        a, b = self.prune(a, facts), self.prune(b, facts)
        if type(a) is not G and type(b) is not G:
            return f(a, b)
        A, B = self._galts(a), self._galts(b)
        if len(A) * len(B) > 64:
            a = self.jflat(a, A[0][1]) if type(a) is G else a
            b = self.jflat(b, B[0][1]) if type(b) is G else b
            if type(a) is G or type(b) is G:
                return self.unknown(64)
            return f(a, b)
        out = []
        for g, x in A:
            for h, y in B:
                if contradict(g, h):
                    continue
                gh = g | h
                if g and h:
                    c = self.close(gh)
                    if any(-l in c for l in c) or contradict(frozenset(c), facts):
                        continue
                out.append((gh, f(x, y)))
        return self.mkG(out)

    def lift1(self, f, a, facts):
        if type(a) is not G:
            return f(a)
        a = self.prune(a, facts)
        if type(a) is not G:
            return f(a)
        return self.mkG([(g, f(x)) for g, x in a.alts])

    def zsplit(self, v):
        """turn AV with zero-condition into guarded value (0 | nonzero)"""
        if type(v) is AV and v.z is not None:
            zs = v.z
            if len(zs) == 1:
                pos = frozenset(zs)
                (l,) = zs
                neg = frozenset([-l])
            else:
                a = self.A("all", zs)
                self.A.impl[a] = zs
                pos = frozenset([a])
                neg = frozenset([-a])
            nz = AV(max(1, v.lo), v.hi, v.lab, None)
            if nz.lo == nz.hi and not nz.lab:
                nz = nz.lo
            return G(((pos, 0 if not v.lab else AV(0, 0, v.lab)), (neg, nz)))
        return v

    def eqatom(self, ta, tb):
        """literal for ta == tb, or True/False/None"""
        if ta is None or tb is None:
            return None
        if ta == tb:
            return True
        if ta > tb:
            ta, tb = tb, ta
        ka, kb = self.T.rev[ta], self.T.rev[tb]
        if ka[0] == "c" and kb[0] == "c":
            return False
        if self.oracle is not None:
            r = self.oracle(ta, tb)
            if r is not None:
                return r
        n = len(self.A.rev)
        a = self.A("eq", ta, tb)
        if a == n and (ka[0] == "c") != (kb[0] == "c"):
            # a value equals at most one constant
            t = tb if ka[0] == "c" else ta
            l = self.eqconst.setdefault(t, [])
            if len(l) < 24:
                for o in l:
                    self.A.impl[o] = frozenset(self.A.impl.get(o, EMPTY)) | {-a}
                self.A.impl[a] = frozenset(-o for o in l)
                l.append(a)
        return a

    # -------------------------------------------------------------- entailment by unit propagation
    def prover(self):
        return Prover(self)

    def binop(self, op, a, b, w, ins=None):
        ta, tb = type(a), type(b)
        mask = (1 << w) - 1
        if ta is int and tb is int:
            r = self.cbin(op, a, b, w)
            if r is not None:
                return r
            self.report("divzero", ins, "%s by zero" % op)
            return self.unknown(w)
        if ta in (Ptr, Fn) or tb in (Ptr, Fn):
            return self.ptrarith(op, a, b, w)
        if ta not in (int, AV) or tb not in (int, AV):
            return self.unknown(w, self.labels(a) | self.labels(b))
        al, ah, la, xa = (a, a, EMPTY, None) if ta is int else (a.lo, a.hi, a.lab, a.tm)
        bl, bh, lb, xb = (b, b, EMPTY, None) if tb is int else (b.lo, b.hi, b.lab, b.tm)
        lab = la | lb if la and lb else (la or lb)
        if al == ah and bl == bh:
            r = self.cbin(op, al, bl, w)
            if r is not None:
                return AV(r, r, lab, self.T("c", r) if self.terms else None) if lab else r
        # identities that keep the value
        if tb is int:
            if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if b == 0 and op in ("and", "mul"):
                return 0
            if b == mask and op == "and":
                return a
            if b == 1 and op in ("mul", "udiv", "sdiv"):
                return a
            if b == mask and op == "or":
                return mask
        if ta is int:
            if a == 0 and op in ("add", "or", "xor"):
                return b
            if a == 0 and op in ("and", "mul", "shl", "lshr", "ashr", "udiv", "urem"):
                return 0
            if a == mask and op == "and":
                return b
            if a == mask and op == "or":
                return mask
        z = None
        if op == "or":
            za = self.zof(a)
            zb = self.zof(b)
            if za is not None and zb is not None:
                z = za | zb
        # operations on a value with known zero-condition: split
        if z is None and ((ta is AV and a.z is not None) or (tb is AV and b.z is not None)) and op in ("sub", "and", "ashr", "lshr", "mul", "add", "xor"):
            if (op != "xor" or (ta is int or tb is int)) and self.splitz:
                return self.lift2(lambda x, y: self.binop(op, x, y, w, ins), self.zsplit(a), self.zsplit(b), EMPTY)
        lo, hi = 0, mask
        if op == "add":
            lo, hi = al + bl, ah + bh
            if lo > mask:
                lo, hi = lo & mask, hi & mask
                if lo > hi:
                    lo, hi = 0, mask
            elif hi > mask:
                # adding a negative constant
                if tb is int and b >> (w - 1) and al >= (1 << w) - b:
                    lo, hi = al + b - (1 << w), ah + b - (1 << w)
                else:
                    lo, hi = 0, mask
        elif op == "sub":
            lo, hi = al - bh, ah - bl
            if lo < 0:
                if hi < 0:
                    lo, hi = lo + (1 << w), hi + (1 << w)
                else:
                    lo, hi = 0, mask
        elif op == "mul":
            lo, hi = al * bl, ah * bh
            if hi > mask:
                lo, hi = 0, mask
        elif op == "and":
            lo, hi = 0, min(ah, bh)
            if tb is int and ah <= b and (b & (b + 1)) == 0:
                lo, hi = al, ah
        elif op == "or":
            lo, hi = max(al, bl), (1 << max(ah.bit_length(), bh.bit_length())) - 1
        elif op == "xor":
            lo, hi = 0, (1 << max(ah.bit_length(), bh.bit_length())) - 1
        elif op == "shl":
            if tb is int and b < w and (ah << b) <= mask:
                lo, hi = al << b, ah << b
        elif op == "lshr":
            if tb is int:
                lo, hi = al >> b, ah >> b
            else:
                lo, hi = 0, ah >> bl
        elif op == "ashr":
            if tb is int:
                s = w - 1
                if ah >> s == 0:
                    lo, hi = al >> b, ah >> b
                elif al >> s:
                    lo, hi = ((al - (1 << w)) >> b) & mask, ((ah - (1 << w)) >> b) & mask
        elif op == "udiv":
            if bl > 0:
                lo, hi = al // bh, ah // bl
        elif op == "urem":
            if bl > 0:
                lo, hi = (al, ah) if ah < bl else (0, min(ah, bh - 1))
        elif op in ("sdiv", "srem"):
            if ah >> (w - 1) == 0 and bl > 0 and bh >> (w - 1) == 0:
                if op == "sdiv":
                    lo, hi = al // bh, ah // bl
                else:
                    lo, hi = (al, ah) if ah < bl else (0, min(ah, bh - 1))
        tm = None
        if self.terms:
            if xa is None and ta is int:
                xa = self.T("c", a)
            if xb is None and tb is int:
                xb = self.T("c", b)
            if xa is not None and xb is not None:
                if op == "xor":
                    r = self.xorterm(xa, xb, a, b)
                    if isinstance(r, tuple):
                        return r[0]
                    tm = r
                    if xa != xb:
                        l = self.eqatom(xa, xb)
                        if l is not None and l is not True and l is not False:
                            z = frozenset([l])
                elif op in ("sub",) and xa == xb:
                    return 0
                elif op in ("and", "or") and xa == xb:
                    return a
                else:
                    if w == 64 and op in ("add", "sub") and (self.T.rev[xa][0] in ("add", "sub") or self.T.rev[xb][0] in ("add", "sub")):
                        c1, m1 = self.lin(xa)
                        c2, m2 = self.lin(xb)
                        sg = 1 if op == "add" else -1
                        if len(m1) == len(m2) and all(m2.get(q) == -sg * v for q, v in m1.items()):
                            return (c1 + sg * c2) & mask
                    if op in ("add", "mul", "and", "or") and xa > xb:
                        xa, xb = xb, xa
                    tm = self.T(op, w, xa, xb)
        if lo == hi and not lab:
            return lo
        if tm is not None and w <= 64:
            self.T.see(tm, lo, hi)
        return AV(lo, hi, lab, tm, z)

    def zof(self, v):
        """zero-condition of a value for OR-accumulation"""
        if type(v) is int:
            return frozenset() if v == 0 else None
        if v.z is not None:
            return v.z
        return None

    def xorterm(self, xa, xb, a, b):
        """xor normal form: symmetric difference of leaves; (value,) if it collapses to a known value"""
        def leaves(t, v):
            k = self.T.rev[t]
            if k[0] == "xor":
                return k[1]
            self.T.av.setdefault(t, v)
            return frozenset([t])
        d = leaves(xa, a) ^ leaves(xb, b)
        if not d:
            return (0,)
        if len(d) == 1:
            (t,) = d
            v = self.T.av.get(t)
            if v is not None:
                return (v,)
        return self.T("xor", d)

    @staticmethod
    def cbin(op, a, b, w):
        mask = (1 << w) - 1

        def s(v):
            return v - (1 << w) if v >> (w - 1) else v
        if op == "add":
            return (a + b) & mask
        if op == "sub":
            return (a - b) & mask
        if op == "mul":
            return (a * b) & mask
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return (a << b) & mask if b < w else 0
        if op == "lshr":
            return a >> b if b < w else 0
        if op == "ashr":
            return (s(a) >> min(b, w - 1)) & mask
        if b == 0:
            return None
        if op == "udiv":
            return a // b
        if op == "urem":
            return a % b
        x, y = s(a), s(b)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == "sdiv":
            return q & mask
        return (x - q * y) & mask

    def ptrarith(self, op, a, b, w):
        if op == "sub" and type(a) is Ptr and type(b) is Ptr and a.obj is b.obj:
            return self.binop("sub", a.off & ((1 << 64) - 1) if type(a.off) is int else a.off,
                              b.off & ((1 << 64) - 1) if type(b.off) is int else b.off, 64)
        if op == "add" and type(a) is Ptr and type(b) in (int, AV):
            return Ptr(a.obj, self.offadd(a.off, b))
        if op == "sub" and type(a) is Ptr and type(b) is int:
            return Ptr(a.obj, self.offadd(a.off, (-b) & ((1 << 64) - 1)))
        if op == "and" and type(a) is Ptr and type(b) is int and type(a.off) is int:
            # alignment tests
            al = 16
            if b < al:
                return a.off & b
        return self.unknown(w, self.labels(a) | self.labels(b))

    def offadd(self, off, d):
        """off (signed int | AV64) + d (unsigned 64 int | AV | G)"""
        if type(off) is int and type(d) is int:
            if d >> 63:
                d -= 1 << 64
            return off + d
        x = off & ((1 << 64) - 1) if type(off) is int else off
        r = self.lift2(lambda p, q: self.binop("add", p, q, 64), x, d, EMPTY)
        if type(r) is int:
            return r - (1 << 64) if r >> 63 else r
        return r

    def cast(self, op, v, fw, tw):
        t = type(v)
        if t in (Ptr, Fn):
            return v
        if t is AV and v.lo == v.hi:
            r = self.cast(op, v.lo, fw, tw)
            return AV(r, r, v.lab, self.T("c", r) if self.terms else None) if v.lab else r
        if op == "zext":
            if t is AV and v.hi >> fw:
                return AV(0, (1 << fw) - 1, v.lab)
            return v                       # same unsigned value, same term
        if op == "trunc":
            mask = (1 << tw) - 1
            if t is int:
                return v & mask
            if v.hi <= mask:
                return v
            if v.z is not None:
                if (1 << fw) - 1 >= v.hi:
                    pass
                return self.lift1(lambda x: self.cast(op, x, fw, tw), self.zsplit(v), EMPTY)
            tm = self.ext_term(v.tm, 0, tw // 8, (fw + 7) // 8) if (v.tm is not None and tw % 8 == 0) else (
                self.T("trunc", tw, v.tm) if v.tm is not None else None)
            lo, hi = (v.lo & mask, v.hi & mask) if v.lo >> tw == v.hi >> tw else (0, mask)
            if lo == hi and not v.lab:
                return lo
            return AV(lo, hi, v.lab, tm)
        if op == "sext":
            if t is int:
                return v | (((1 << tw) - 1) ^ ((1 << fw) - 1)) if v >> (fw - 1) else v
            ext = ((1 << tw) - 1) ^ ((1 << fw) - 1)
            if v.hi >> (fw - 1) == 0:
                return v
            if v.lo >> (fw - 1):
                return AV(v.lo | ext, v.hi | ext, v.lab, self.T("sext", fw, tw, v.tm) if v.tm is not None else None)
            if v.z is not None:
                return self.lift1(lambda x: self.cast(op, x, fw, tw), self.zsplit(v), EMPTY)
            return AV(0, (1 << tw) - 1, v.lab, self.T("sext", fw, tw, v.tm) if v.tm is not None else None)
        return v

    def icmp(self, pred, a, b, w, ins=None):
        ta, tb = type(a), type(b)
        if ta in (Ptr, Fn) or tb in (Ptr, Fn):
            return self.pcmp(pred, a, b)
        if ta not in (int, AV) or tb not in (int, AV):
            return AV(0, 1, self.labels(a) | self.labels(b))
        al, ah = (a, a) if ta is int else (a.lo, a.hi)
        bl, bh = (b, b) if tb is int else (b.lo, b.hi)
        lab = (EMPTY if ta is int else a.lab) | (EMPTY if tb is int else b.lab)
        if pred[0] == "s":
            def sg(lo, hi):
                h = 1 << (w - 1)
                if hi < h:
                    return lo, hi
                if lo >= h:
                    return lo - 2 * h, hi - 2 * h
                return -h, h - 1
            al, ah = sg(al, ah)
            bl, bh = sg(bl, bh)
        p = pred[1:] if pred[0] in "us" else pred
        r = None
        if p == "eq":
            if al == ah == bl == bh:
                r = 1
            elif ah < bl or bh < al:
                r = 0
        elif p == "ne":
            if al == ah == bl == bh:
                r = 0
            elif ah < bl or bh < al:
                r = 1
        elif p == "lt":
            r = 1 if ah < bl else 0 if al >= bh else None
        elif p == "le":
            r = 1 if ah <= bl else 0 if al > bh else None
        elif p == "gt":
            r = 1 if al > bh else 0 if ah <= bl else None
        elif p == "ge":
            r = 1 if al >= bh else 0 if ah < bl else None
        if r is not None:
            return r if not lab else AV(r, r, lab)
        if p in ("eq", "ne") and tb is int and b == 0 and ta is AV and a.z is not None:
            return self.lift1(lambda x: self.icmp(pred, x, b, w, ins), self.zsplit(a), EMPTY)
        if not self.terms:
            return AV(0, 1, lab)
        xa, xb = self.term(a), self.term(b)
        if xa is None or xb is None:
            return AV(0, 1, lab, self.T.fresh("cmp"))
        if xa == xb:
            r = 1 if p in ("eq", "le", "ge") else 0
            return r
        if p in ("eq", "ne"):
            l = self.eqatom(xa, xb)
            if l is False:
                return 1 if p == "ne" else 0
        else:
            s = pred[0] == "s"
            if p in ("gt", "le"):
                # a>b == b<a ; a<=b == not b<a
                l = self.A("slt" if s else "ult", xb, xa)
                if p == "le":
                    l = -l
            else:
                l = self.A("slt" if s else "ult", xa, xb)
                if p == "ge":
                    l = -l
        t, f = (1, 0) if p != "ne" else (0, 1)
        if lab:
            t, f = AV(t, t, lab), AV(f, f, lab)
        return G(((frozenset([l]), t), (frozenset([-l]), f)))

    def pcmp(self, pred, a, b):
        if pred in ("eq", "ne"):
            eq = None
            if type(a) in (Ptr, Fn) and type(b) is int and b == 0:
                eq = False
            elif type(b) in (Ptr, Fn) and type(a) is int and a == 0:
                eq = False
            elif type(a) is Ptr and type(b) is Ptr:
                if a.obj is not b.obj:
                    eq = False
                elif type(a.off) is int and type(b.off) is int:
                    eq = a.off == b.off
            elif type(a) is Fn and type(b) is Fn:
                eq = a.name == b.name
            if eq is not None:
                return int(eq == (pred == "eq"))
        if type(a) is Ptr and type(b) is Ptr and a.obj is b.obj:
            m = (1 << 64) - 1
            return self.icmp(pred, a.off & m if type(a.off) is int else a.off, b.off & m if type(b.off) is int else b.off, 64)
        return AV(0, 1, self.labels(a) | self.labels(b), self.T.fresh("pcmp") if self.terms else None)

    # -------------------------------------------------------------- execution
    def val(self, o, env, mod):
        t = type(o)
        if t is L:
            return env[o.i]
        if t is int:
            return o
        if t is GRef:
            return self.gref(o, mod)
        if o is UNDEF:
            return AV(0, (1 << 64) - 1, frozenset(["UNDEF"]), self.T.fresh("undefc") if self.terms else None)
        if t is tuple:
            return Agg([])
        return o

    def call(self, f, args, st, ins=None):
        """abstractly execute function f; returns [(state, retval)], one per ghost"""
        name = f.name
        if len(self.stack) > 60:
            raise AnalysisError("call depth")
        self.stats["calls"] += 1
        self.fn_seen.add(name)
        self.stack.append((f, ins))
        pcl0 = st.pcl
        allocas = []
        env = [None] * f.nslots
        for p, v in zip(f.params, args):
            env[p.i] = v
        if f not in self.defs:
            self.prep(f)
        pend = {}          # block -> list of (env, state)
        self.arrive(pend, f.order[0], None, env, st)
        rets = []
        cnt, indet, seen, fix = {}, {}, {}, {}
        act = [cnt, indet, seen, fix]
        while pend:
            b = min(pend, key=lambda x: x.wto)
            lst = pend.pop(b)
            groups = {}
            rv = self.retphi(b) if self.split_ret else None
            for e, s in lst:
                k = s.ghost
                if rv is not None:
                    # results that are different constants are kept apart
                    x = rv[1] if type(rv) is tuple else e[rv] if rv >= 0 else None
                    if type(x) is int:
                        k = (k, x)
                if k in groups and self.coarse and type(k) is tuple and len(k) == 2 and k[1] in self.coarse and type(k[0]) is tuple:
                    # several failing ways out: one representative, marked
                    s0 = groups[k][1]
                    if not any(g[0] == "failed" for g in s0.ghost):
                        s0.ghost = s0.ghost + (("failed", self.where(b.term)),)
                elif k in groups:
                    e0, s0 = groups[k]
                    groups[k] = self.join(e0, s0, e, s)
                else:
                    groups[k] = (e, s)
            for k, (e, s) in groups.items():
                if b in f.loops:
                    r = self.loophead(f, b, e, s, act)
                    if r is None:
                        continue
                    e, s = r
                for e2, s2 in self.run_block(f, b, e, s, allocas):
                    self.terminate(f, b, e2, s2, pend, rets, act)
        self.stack.pop()
        out = {}
        for v, s in rets:
            k = s.ghost
            if self.split_ret and type(v) is int:
                k = (k, v)
            if k in out:
                v0, s0 = out[k]
                ee, ss = self.join([v0], s0, [v], s)
                out[k] = (ee[0], ss)
            else:
                out[k] = (v, s)
        res = []
        for v, s in out.values():
            for o in allocas:
                s.mem.pop(o, None)
                s.own.discard(o)
            s.pcl = pcl0
            res.append((s, v))
        return res

    def prep(self, f):
        d = {}
        for b in f.order:
            for i in b.phis + b.ins:
                if i.res is not None:
                    d[i.res.i] = i
        # slots read outside their own block (only those need joining)
        self.defs[f] = d
        cs = set()
        for b in f.order:
            for i in b.ins:
                if i.op == "icmp":
                    for x in i.a:
                        if type(x) is int:
                            cs.update((x, x + 1, max(0, x - 1)))
        f.consts = sorted(cs)

    def arrive(self, pend, b, frm, env, st):
        if b.phis:
            vals = []
            for p in b.phis:
                o = p.x[frm.name]
                v = self.val(o, env, p.fn.mod)
                vals.append(v)
            env = list(env)
            for p, v in zip(b.phis, vals):
                env[p.res.i] = v
        if self.drop is not None and b.fn.name == self.drop[0]:
            rv = self.retphi(b)
            if type(rv) is int and rv >= 0 and type(env[rv]) is int and env[rv] == self.drop[1]:
                self.dropped += 1
                self.dropped_ghosts.add(st.ghost)
                return
        pend.setdefault(b, []).append((env, st))

    dropped_ghosts = set()

    def retphi(self, b):
        """slot of the returned merge value if b only returns it; None if b is not a return block"""
        t = b.term
        if t.op == "br" and not b.phis and all(i is t or i.op == "call" and isinstance(i.x[0], GRef) and i.x[0].name.startswith("llvm.") for i in b.ins):
            r = self.retphi(b.succ[0])
            if type(r) is int and r >= 0:
                for p in b.succ[0].phis:
                    if p.res.i == r and type(p.x.get(b.name)) is int:
                        return ("const", p.x[b.name])
            return None
        if t.op != "ret" or b.ins and any(i.op != "call" or not (isinstance(i.x[0], GRef) and i.x[0].name.startswith("llvm.")) for i in b.ins if i is not t):
            return None
        if t.a and type(t.a[0]) is L and any(p.res.i == t.a[0].i for p in b.phis):
            return t.a[0].i
        return -1

    def loophead(self, f, h, e, s, act):
        cnt, indet, seen, fix = act
        key = (h, s.ghost)
        # leaving and re-entering an inner loop resets it
        c = cnt.get(key, 0)
        if c and indet.get(key) == "reset":
            c = 0
            indet[key] = 0
            fix.pop(key, None)
            seen.pop(key, None)
        cnt[key] = c + 1
        if c + 1 > self.max_unroll:
            raise AnalysisError("loop does not settle: %s" % self.where(h.term))
        n_ind = indet.get(key, 0)
        if n_ind <= self.K and key not in fix:
            return e, s
        # bound relational counters (i+n with n < limit-i) before intervals forget the relation
        for p in h.phis:
            v = e[p.res.i]
            if type(v) is AV and v.tm is not None and self.T.rev[v.tm][0] in ("add", "sub"):
                for c in f.consts:
                    if v.lo <= c < min(v.hi, 1 << 40):
                        u = self.upper(s, v, c)
                        if u is not None:
                            e = list(e)
                            e[p.res.i] = AV(v.lo, min(v.hi, max(u, v.lo)), v.lab, v.tm)
                            break
        if key not in fix:
            fix[key] = 0
            seen[key] = (e, s)
            return self.havoc_terms(f, h, e, s, e, s, fix[key])
        e0, s0 = seen[key]
        fix[key] += 1
        ej, sj = self.join(e0, s0, e, s, guard=False)
        if fix[key] > 3:
            self.widen(f, e0, s0, ej, sj, fix[key])
        if self.leq(ej, sj, e0, s0):
            return None
        seen[key] = (ej, sj)
        ej2, sj2 = list(ej), sj.fork()
        return ej2, sj2

    def havoc_terms(self, f, h, e, s, e0, s0, n):
        return list(e), s.fork()

    def widen(self, f, e0, s0, ej, sj, n):
        th = f.consts

        def w(old, new):
            if type(new) is AV and type(old) in (int, AV):
                ol, oh = (old, old) if type(old) is int else (old.lo, old.hi)
                lo, hi = new.lo, new.hi
                if lo < ol:
                    c = [t for t in th if t <= lo]
                    lo = max(c) if c and n < 8 else 0
                if hi > oh:
                    c = [t for t in th if t >= hi]
                    hi = min(c) if c and n < 8 else max(hi, (1 << 64) - 1 if hi < (1 << 64) else hi * 4)
                if n > 12 and hi > oh:
                    hi = 1 << 4096
                if (lo, hi) != (new.lo, new.hi):
                    if new.tm is not None:
                        self.T.see(new.tm, lo, hi)
                    return AV(lo, hi, new.lab, new.tm)
            return new
        for i in range(len(ej)):
            if e0[i] is not None and ej[i] is not None:
                ej[i] = w(e0[i], ej[i])
                # clip to the type's width
                d = self.defs[f].get(i)
                if d is not None and d.ty is not None and d.ty.k == "int" and type(ej[i]) is AV and d.op != "icmp":
                    mx = (1 << d.ty.n) - 1
                    if ej[i].hi > mx:
                        ej[i] = AV(ej[i].lo if ej[i].lo <= mx else 0, mx, ej[i].lab, ej[i].tm)
        for o, m in list(sj.mem.items()):
            m0 = s0.mem.get(o)
            if m0 is None or m0 is m:
                continue
            mm = m.copy()
            for k in mm.keys:
                n2, v = mm.cells[k]
                c0 = m0.cells.get(k)
                if c0 and c0[0] == n2:
                    x = w(c0[1], v)
                    if type(x) is AV and x.hi >= 1 << (8 * n2):
                        x = AV(x.lo, (1 << (8 * n2)) - 1, x.lab, x.tm)
                    mm.cells[k] = (n2, x)
            sj.mem[o] = mm

    def leq(self, ej, sj, e0, s0):
        def le(a, b):
            if a is b or a is None:
                return True
            if type(a) in (int, AV) and type(b) in (int, AV):
                al, ah, la = (a, a, EMPTY) if type(a) is int else (a.lo, a.hi, a.lab)
                bl, bh, lb = (b, b, EMPTY) if type(b) is int else (b.lo, b.hi, b.lab)
                return bl <= al and ah <= bh and la <= lb
            if type(a) is Ptr and type(b) is Ptr and a.obj is b.obj:
                (al, ah), (bl, bh) = self.offs(a.off), self.offs(b.off)
                return bl <= al and ah <= bh
            if type(a) is G and type(b) is G:
                return all(any(le(x, y) for _, y in b.alts) for _, x in a.alts)
            if type(b) is G:
                return any(le(a, y) for _, y in b.alts)
            return same(a, b)
        for a, b in zip(ej, e0):
            if b is None and a is None:
                continue
            if (b is None) or not le(a, b):
                if a is None:
                    continue
                return False
        for o, m in sj.mem.items():
            m0 = s0.mem.get(o)
            if m0 is m:
                continue
            if m0 is None:
                if o.kind == "heap" or m.cells:
                    return False
                continue
            if m.keys != m0.keys:
                return False
            for k in m.keys:
                c, c0 = m.cells[k], m0.cells[k]
                if c[0] != c0[0] or not le(c[1], c0[1]):
                    return False
        return s0.facts <= sj.facts

    def run_block(self, f, b, env, st, allocas, start=0):
        """returns list of (env,state) at the terminator"""
        mod = f.mod
        ins_list = b.ins
        n = len(ins_list)
        i = start
        self.stats["instructions"] += n - start
        while i < n:
            I = ins_list[i]
            op = I.op
            if op == "getelementptr":
                env[I.res.i] = self.gep(I, env, st, mod)
            elif op == "call":
                outs = self.do_call(f, I, env, st, allocas)
                if not outs:
                    return []
                if len(outs) == 1:
                    st, v = outs[0]
                    if I.res is not None:
                        env[I.res.i] = v
                else:
                    res = []
                    for s2, v in outs:
                        e2 = list(env)
                        if I.res is not None:
                            e2[I.res.i] = v
                        res.extend(self.run_block(f, b, e2, s2, allocas, i + 1))
                    return res
            elif op == "load":
                p = self.val(I.a[0], env, mod)
                v = self.read(st, p, I.ty.size, I)
                if I.ty.k == "int" and I.ty.n < 8 * I.ty.size and type(v) in (AV, G):
                    v = self.lift1(lambda x: self.cast("trunc", x, 8 * I.ty.size, I.ty.n) if type(x) in (int, AV) else x, v, st.facts)
                if self.hooks is not None and hasattr(self.hooks, "load"):
                    self.hooks.load(self, st, p, I, v)
                env[I.res.i] = v
            elif op == "store":
                v = self.val(I.a[0], env, mod)
                p = self.val(I.a[1], env, mod)
                if type(v) is Agg:
                    if I.a[0] == ("zero",):
                        self.memset(st, p, 0, I.ty.size, I)
                else:
                    self.write(st, p, I.ty.size, v, I)
                if self.hooks is not None and hasattr(self.hooks, "store"):
                    self.hooks.store(self, st, p, I, v)
            elif op == "alloca":
                c = self.val(I.a[0], env, mod)
                o = Obj("%s.%s" % (f.name, self.varname(f, I)), None, "stack", "undef", I)
                if type(c) is int:
                    o.size = c * I.ty.size
                else:
                    o.size = self.rng(c)[0] * I.ty.size
                allocas.append(o)
                st.mem[o] = MObj()
                st.own.add(o)
                env[I.res.i] = Ptr(o, 0)
            elif op == "icmp":
                a = self.val(I.a[0], env, mod)
                c = self.val(I.a[1], env, mod)
                w = I.ty.n if I.ty.k == "int" else 64
                if type(a) is int and type(c) is int:
                    env[I.res.i] = self.icmp(I.x, a, c, w)
                else:
                    r = self.lift2(lambda x, y: self.icmp(I.x, x, y, w, I), a, c, st.facts)
                    if w == 64 and type(r) is G and type(a) is AV and type(c) is int and a.tm is not None and I.x in ("ult", "uge", "ule", "ugt") \
                            and self.T.rev[a.tm][0] in ("add", "sub"):
                        lim = c - 1 if I.x in ("ult", "uge") else c
                        if self.upper(st, a, lim) is not None:
                            st.facts = st.facts | {self.A("ult", a.tm, self.T("c", lim + 1))}
                            r = 1 if I.x in ("ult", "ule") else 0
                            if a.lab:
                                r = AV(r, r, a.lab)
                    env[I.res.i] = r
            elif op in BIN:
                a = self.val(I.a[0], env, mod)
                c = self.val(I.a[1], env, mod)
                w = I.ty.n
                if type(a) is int and type(c) is int:
                    env[I.res.i] = self.binop(op, a, c, w, I)
                else:
                    if self.hooks is not None and op in DIV and hasattr(self.hooks, "divop"):
                        self.hooks.divop(self, st, I, a, c)
                    env[I.res.i] = self.lift2(lambda x, y: self.binop(op, x, y, w, I), a, c, st.facts)
            elif op in CASTS:
                v = self.val(I.a[0], env, mod)
                if type(v) is int and op == "zext":
                    env[I.res.i] = v
                elif op in ("ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"):
                    env[I.res.i] = v
                else:
                    fw, tw = I.x.n, I.ty.n
                    env[I.res.i] = self.lift1(lambda x: self.cast(op, x, fw, tw), v, st.facts)
            elif op == "select":
                c = self.val(I.a[0], env, mod)
                a = self.val(I.a[1], env, mod)
                d = self.val(I.a[2], env, mod)
                env[I.res.i] = self.select(st, c, a, d)
            elif op == "atomicrmw":
                p = self.val(I.a[0], env, mod)
                v = self.val(I.a[1], env, mod)
                old = self.read(st, p, I.ty.size, I)
                if self.hooks is not None and hasattr(self.hooks, "store"):
                    self.hooks.store(self, st, p, I, v)
                k = I.x
                if k in ("add", "sub", "and", "or", "xor"):
                    new = self.lift2(lambda x, y: self.binop(k, x, y, I.ty.n, I), old, v, st.facts)
                elif k == "xchg":
                    new = v
                else:
                    new = self.unknown(I.ty.n)
                self.write(st, p, I.ty.size, new, I)
                env[I.res.i] = old
            elif op == "cmpxchg":
                p = self.val(I.a[0], env, mod)
                exp = self.val(I.a[1], env, mod)
                new = self.val(I.a[2], env, mod)
                old = self.read(st, p, I.ty.size, I)
                okv = self.lift2(lambda x, y: self.icmp("eq", x, y, I.ty.n if I.ty.k == "int" else 64, I), old, exp, st.facts)
                if okv == 1:
                    self.write(st, p, I.ty.size, new, I)
                elif okv != 0:
                    self.write(st, p, I.ty.size, self.jflat(old, new), I)
                if self.hooks is not None and hasattr(self.hooks, "store"):
                    self.hooks.store(self, st, p, I, new)
                env[I.res.i] = Agg([old, okv])
            elif op == "extractvalue":
                v = self.val(I.a[0], env, mod)
                for k in I.x[1:]:
                    v = v.v[k] if type(v) is Agg and k < len(v.v) else self.unknown(64)
                env[I.res.i] = v
            elif op == "insertvalue":
                v = self.val(I.a[0], env, mod)
                x = self.val(I.a[1], env, mod)
                vv = list(v.v) if type(v) is Agg else []
                while len(vv) <= I.x[0]:
                    vv.append(self.unknown(64))
                vv[I.x[0]] = x
                env[I.res.i] = Agg(vv)
            elif op == "fence":
                pass
            elif op == "float":
                if I.res is not None:
                    env[I.res.i] = self.unknown(64)
            else:
                raise AnalysisError("op " + op)
            i += 1
        return [(env, st)]

    def varname(self, f, I):
        return "v%s@%s" % (I.res.name, f.mod.loc(I.dbg).split(":")[-1] if I.dbg else "")

    def select(self, st, c, a, d):
        c = self.prune(c, st.facts)
        if type(c) is int:
            return a if c & 1 else d
        if type(c) is G:
            alts = []
            for g, x in c.alts:
                if type(x) is AV and x.lo == x.hi:
                    v = a if x.lo & 1 else d
                    v = self.addlab(v, x.lab)
                elif type(x) is int:
                    v = a if x & 1 else d
                else:
                    v = self.jflat(a, d)
                alts.append((g, v))
            return self.mkG(alts)
        v = self.jflat(a, d)
        return self.addlab(v, self.labels(c)) if self.labels(c) else v

    def gep(self, I, env, st, mod):
        b = self.val(I.a[0], env, mod)
        off, var = I.x
        if type(b) is Ptr and not var:
            o = b.off
            return b if off == 0 else Ptr(b.obj, o + off if type(o) is int else self.offadd(o, off & M64))
        d = off & M64
        for v, bits, sc in var:
            x = self.val(v, env, mod)
            if type(x) is int and bits < 64:
                x = self.cast("sext", x, bits, 64)
            elif bits < 64:
                x = self.lift1(lambda y: self.cast("sext", y, bits, 64), x, st.facts)
            x = self.lift2(lambda p, q: self.binop("mul", p, q, 64), x, sc, st.facts)
            x = self.smulfix(v, env, mod, bits, sc, x)
            d = self.lift2(lambda p, q: self.binop("add", p, q, 64), d, x, st.facts)
        def mk(base, dd):
            if type(base) is Ptr:
                return Ptr(base.obj, self.offadd(base.off, dd))
            if type(base) is int:
                return self.binop("add", base, dd, 64) if type(dd) in (int, AV) else base
            return base
        return self.lift2(mk, b, d, st.facts)

    def smulfix(self, v, env, mod, bits, sc, x):
        return x

    def memset(self, st, p, v, n, ins=None):
        if n == 0:
            return
        if type(p) is Ptr and type(p.off) is int:
            _, _, ok = self.check_bounds(st, p, n, ins, "write")
            if not ok:
                return
            m = self.wmobj(st, p.obj, ins)
            if type(v) is int:
                w = 0
                if v:
                    w = int.from_bytes(bytes([v]) * n, "little")
                self._wr(p.obj, m, p.off, n, w)
            else:
                for i in range(n):
                    self._wr(p.obj, m, p.off + i, 1, v)
            return
        self.write(st, p, n, 0 if v == 0 else self.unknown(8 * n), ins)

    # -------------------------------------------------------------- calls
    def do_call(self, f, I, env, st, allocas):
        callee, tys = I.x
        mod = f.mod
        args = [self.val(a, env, mod) for a in I.a]
        if isinstance(callee, tuple):
            return self.asm_call(I, args, st, callee)
        if isinstance(callee, GRef):
            name = callee.name
        else:
            t = self.val(callee, env, mod)
            if type(t) is not Fn:
                raise AnalysisError("indirect call at " + self.where(I))
            name = t.name
        if name.startswith("llvm."):
            return self.intrinsic(name, args, st, I)
        self.calls_seen.add((name, I))
        g = mod.funcs.get(name)
        if g is None:
            g = self.ext.get(name)
        p = self.find_prim(name)
        if p is not None:
            self.stats["prims"] += 1
            r = p(self, st, args, I)
            return self.norm(st, r)
        if g is not None:
            return self.call(g, args, st, I)
        return self.norm(st, self.unknown_ext(name, args, st, I))

    def find_prim(self, name):
        return self.prims.get(name)

    def norm(self, st, r):
        if isinstance(r, list):
            return r
        return [(st, r)]

    def unknown_ext(self, name, args, st, I):
        raise AnalysisError("no model for external function %s (%s)" % (name, self.where(I)))

    def asm_call(self, I, args, st, callee):
        lab = EMPTY
        for a in args:
            lab = lab | self.labels(a)
        if I.ty.k == "struct":
            return [(st, Agg([self.unknown(64, lab, self.T.fresh("asm") if self.terms else None) for _ in range(I.ty.n)]))]
        return [(st, self.unknown(I.ty.n or 64, lab, self.T.fresh("asm") if self.terms else None))]

    def intrinsic(self, name, args, st, I):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            if type(args[2]) is int:
                self.memcpy(st, args[0], args[1], args[2], I)
            else:
                self.memcpy_sym(st, args[0], args[1], args[2], I)
            return [(st, None)]
        if name.startswith("llvm.memset"):
            if type(args[2]) is int:
                self.memset(st, args[0], args[1], args[2], I)
            else:
                self.memset_sym(st, args[0], args[1], args[2], I)
            return [(st, None)]
        if name.startswith("llvm.stacksave"):
            return [(st, 0)]
        if name.startswith(("llvm.stackrestore", "llvm.lifetime", "llvm.assume", "llvm.va_", "llvm.prefetch", "llvm.donothing")):
            return [(st, None)]
        if name.startswith("llvm.trap"):
            return []
        lab = EMPTY
        for a in args:
            lab = lab | self.labels(a)
        if name.startswith(("llvm.umul.with", "llvm.uadd.with", "llvm.usub.with", "llvm.sadd.with")):
            return [(st, Agg([self.unknown(I.ty.el[0].n, lab), self.unknown(1, lab)]))]
        if I.ty.k == "int":
            return [(st, self.unknown(I.ty.n, lab, self.T.fresh("intr") if self.terms else None))]
        raise AnalysisError("intrinsic " + name)

    def memcpy_sym(self, st, d, s, n, I):
        lo, hi = self.rng(n)
        ln = self.labels(n)
        for q, what in ((s, "read"), (d, "write")):
            if type(q) is Ptr:
                self.check_bounds(st, q, hi, I, what)
        if type(d) is Ptr and type(s) is Ptr and type(d.off) is int and d.obj.size is not None:
            m = self.wmobj(st, d.obj, I)
            end = min(d.off + hi, d.obj.size)
            lab = ln
            if type(s.off) is int and s.obj.size is not None:
                for _, _, v in self.slices(s.obj, self.mobj(st, s.obj), s.off, min(hi, s.obj.size - s.off)):
                    lab = lab | self.labels(v)
            if end > d.off:
                self._wrweak(d.obj, m, d.off, end, lab)

    def memset_sym(self, st, p, v, n, I):
        lo, hi = self.rng(n)
        if type(p) is Ptr:
            self.check_bounds(st, p, hi, I, "write")
            if type(p.off) is int and p.obj.size is not None:
                m = self.wmobj(st, p.obj, I)
                end = min(p.off + hi, p.obj.size)
                if end > p.off:
                    self._wrweak(p.obj, m, p.off, end, self.labels(v) | self.labels(n))

    # -------------------------------------------------------------- terminators
    def terminate(self, f, b, env, st, pend, rets, act):
        t = b.term
        op = t.op
        if op == "br":
            self.goto(f, b, b.succ[0], env, st, pend, act)
        elif op == "condbr":
            c = self.prune(self.val(t.a[0], env, f.mod), st.facts)
            if type(c) is AV and c.lo == c.hi:
                if self.hooks is not None and hasattr(self.hooks, "branch"):
                    self.hooks.branch(self, st, t, c, False)
                c = c.lo
            if type(c) is int:
                big = self.bigbound(f, t)
                if not big and b.head and type(t.a[0]) is L:
                    self.dynbound(f, b, t, env, act)
                self.exit_edge(b, b.succ[0 if c & 1 else 1], b.succ, act, st, determinate=not big)
                self.goto(f, b, b.succ[0] if c & 1 else b.succ[1], env, st, pend, act)
                return
            if self.hooks is not None and hasattr(self.hooks, "branch"):
                self.hooks.branch(self, st, t, c, True)
            self.exit_edge(b, None, b.succ, act, st, determinate=False)
            lab = self.labels(c) if self.implicit else EMPTY
            first = True
            todo = []
            for want, s in ((1, b.succ[0]), (0, b.succ[1])):
                sets = self.outcomes(c, want, st.facts)
                if not sets:
                    continue
                todo.append((want, s, sets))
            for k, (want, s, sets) in enumerate(todo):
                s2 = st.fork() if k < len(todo) - 1 else st
                e2 = list(env) if k < len(todo) - 1 else env
                lits = sets[0]
                if len(sets) > 1:
                    cm = frozenset.intersection(*sets)
                    o = EMPTY
                    rest = [x - cm for x in sets]
                    if all(rest):
                        acc = rest[0]
                        for r in rest[1:]:
                            acc = self.mkor(acc, r)
                        o = acc
                    lits = cm | o
                if not self.assume(s2, lits):
                    continue
                if lab:
                    s2.pcl = s2.pcl | lab
                if self.refine(f, t.a[0], want, e2) is False:
                    continue
                self.goto(f, b, s, e2, s2, pend, act)
        elif op == "switch":
            self.switch(f, b, env, st, pend, act)
        elif op == "ret":
            v = self.val(t.a[0], env, f.mod) if t.a else None
            rets.append((v, st))
        elif op == "unreachable":
            if self.hooks is not None and hasattr(self.hooks, "unreachable"):
                self.hooks.unreachable(self, st, t)

    def outcomes(self, c, want, facts):
        if type(c) is G:
            out = []
            for g, v in c.alts:
                if type(v) is AV:
                    v = v.lo if v.lo == v.hi else None
                if v is None or (v & 1) == want:
                    cl = self.close(g)
                    if not self.contra(cl, facts):
                        out.append(frozenset(g))
            return out
        if type(c) is AV and c.tm is not None:
            a = self.A("nz", c.tm)
            return [frozenset([a if want else -a])]
        return [EMPTY]

    def bigbound(self, f, t):
        o = t.a[0]
        if type(o) is L:
            d = self.defs[f].get(o.i)
            if d is not None and d.op == "icmp":
                for x in d.a:
                    if type(x) is int and 2000 < x < (1 << 31):
                        return True
        return False

    def exit_edge(self, b, taken, succs, act, st, determinate):
        if determinate:
            return
        cnt, indet, seen, fix = act
        for h in b.head:
            if any(h not in s.head for s in succs) or True:
                pass
        for h in b.head:
            outs = [s for s in succs if h not in s.head]
            if outs:
                key = (h, st.ghost)
                if isinstance(indet.get(key, 0), int):
                    # a loop with a decided constant-bound test elsewhere is unrolled in full
                    indet[key] = indet.get(key, 0) + (0 if ("dyn", h) in indet or self.bounded(h) else 1)

    def dynbound(self, f, b, t, env, act):
        """exit test of a concrete counter against a concrete limit not far away: the loop is unrolled in full"""
        outs = [h for h in b.head if any(h not in s.head for s in b.succ)]
        if not outs or ("dyn", outs[0]) in act[1]:
            return
        d = self.defs[f].get(t.a[0].i)
        if d is None or d.op != "icmp":
            return
        v = [env[x.i] if type(x) is L else x for x in d.a]
        if type(v[0]) is not int or type(v[1]) is not int:
            return
        w = d.ty.n if d.ty.k == "int" else 64
        dist = (v[0] - v[1]) % (1 << w)
        if min(dist, (1 << w) - dist) > 2000:
            return
        for h in outs:
            for y in d.a:
                if type(y) is L and self.is_counter(f, h, y):
                    act[1][("dyn", h)] = True

    _bounded = {}

    def bounded(self, h):
        """loop has an exit test comparing against a small constant (so unrolling ends)"""
        r = self._bounded.get(h)
        if r is None:
            r = False
            f = h.fn
            for b in f.loops[h]:
                t = b.term
                if t.op == "condbr" and any(h not in s.head for s in b.succ) and type(t.a[0]) is L:
                    d = self.defs[f].get(t.a[0].i)
                    if d is not None and d.op == "icmp":
                        for x, y in ((d.a[0], d.a[1]), (d.a[1], d.a[0])):
                            if type(x) is int and 0 < x <= 1000 and type(y) is L:
                                if self.is_counter(f, h, y):
                                    r = True
            self._bounded[h] = r
        return r

    def is_counter(self, f, h, y, depth=0):
        d = self.defs[f].get(y.i)
        if d is None or depth > 6:
            return False
        if d.op == "phi" and d.blk is h:
            for v in d.x.values():
                if type(v) is L:
                    e = self.defs[f].get(v.i)
                    if e is not None and e.op in ("add", "sub") and any(type(q) is int for q in e.a):
                        return True
            return False
        if d.op in ("zext", "sext", "trunc", "add", "sub") and type(d.a[0]) is L:
            return self.is_counter(f, h, d.a[0], depth + 1)
        if d.op == "atomicrmw" and d.x == "add":
            return True
        if d.op == "extractvalue" and type(d.a[0]) is L or d.op == "phi" and d.blk is not h and h in d.blk.head:
            return True             # compare-and-swap loop
        if d.op == "call":
            return True             # drawn by a helper: the unroll limit still applies
        if d.op == "load":
            # counter kept in memory (e.g. struct field): accept, the unroll limit still applies
            return True
        return False

    def goto(self, f, b, s, env, st, pend, act):
        # leaving loops: reset their bookkeeping so that a later re-entry starts afresh
        if b.head:
            cnt, indet, seen, fix = act
            for h in b.head:
                if h not in s.head:
                    for key in list(cnt):
                        if key[0] is h and s.wto > h.wto:
                            pass
        if s in f.loops and s not in b.head:
            # entering the loop from outside
            cnt, indet, seen, fix = act
            for key in list(cnt):
                if key[0] is s:
                    cnt.pop(key, None)
                    indet.pop(key, None)
                    seen.pop(key, None)
                    fix.pop(key, None)
        self.arrive(pend, s, b, env, st)

    def switch(self, f, b, env, st, pend, act):
        t = b.term
        v = self.prune(self.val(t.a[0], env, f.mod), st.facts)
        dflt, cases = t.x
        w = t.ty.n
        if type(v) is AV and v.lo == v.hi:
            v = v.lo
        if type(v) is int:
            for c, lb in cases:
                if c == v:
                    return self.goto(f, b, f.blocks[lb], env, st, pend, act)
            return self.goto(f, b, f.blocks[dflt], env, st, pend, act)
        if self.hooks is not None and hasattr(self.hooks, "branch"):
            self.hooks.branch(self, st, t, v, True)
        negs = []
        for c, lb in cases:
            cv = self.lift2(lambda x, y: self.icmp("eq", x, y, w, t), v, c, st.facts)
            if type(cv) is int and cv == 0:
                continue
            sets = self.outcomes(cv, 1, st.facts)
            if not sets:
                continue
            s2 = st.fork()
            e2 = list(env)
            lits = frozenset.intersection(*sets)
            if self.assume(s2, lits):
                if type(t.a[0]) is L:
                    self.setval(f, t.a[0], c, w, e2)
                self.goto(f, b, f.blocks[lb], e2, s2, pend, act)
            n = self.outcomes(cv, 0, st.facts)
            if n:
                negs.append(frozenset.intersection(*n))
            else:
                negs.append(None)
        if any(n is None for n in negs):
            return
        lits = frozenset().union(*negs) if negs else EMPTY
        if self.assume(st, lits):
            self.goto(f, b, f.blocks[dflt], env, st, pend, act)

    def setval(self, f, o, c, w, env):
        env[o.i] = c
        d = self.defs[f].get(o.i)
        if d is not None and d.op in ("sext", "zext") and type(d.a[0]) is L:
            self.setval(f, d.a[0], c & ((1 << d.x.n) - 1), d.x.n, env)

    # -------------------------------------------------------------- interval refinement on branches
    def refine(self, f, o, want, env):
        if type(o) is not L:
            return
        d = self.defs[f].get(o.i)
        if d is None:
            return
        if d.op == "xor" and d.a[1] == 1 and type(d.a[0]) is L:
            return self.refine(f, d.a[0], 1 - want, env)
        if d.op == "phi" and d.blk not in f.loops:
            # short-circuit &&, ||: the only incoming value that can give the wanted outcome
            c = [v for v in d.x.values() if not (type(v) is int and (v & 1) != want)]
            if len(c) == 1 and type(c[0]) is L:
                return self.refine(f, c[0], want, env)
            return
        if d.op in ("and", "or") and d.ty.n == 1 and want == (1 if d.op == "and" else 0):
            for x in d.a:
                if self.refine(f, x, want, env) is False:
                    return False
            return
        if d.op != "icmp" or d.ty.k != "int":
            return
        p = d.x
        if not want:
            p = NEG[p]
        a, b = d.a
        w = d.ty.n
        va = env[a.i] if type(a) is L else a
        vb = env[b.i] if type(b) is L else b
        if type(a) is L and type(vb) in (int, AV):
            if self.refine1(f, a, p, vb, w, env) is False:
                return False
        if type(b) is L and type(va) in (int, AV):
            if self.refine1(f, b, SWAP[p], va, w, env) is False:
                return False

    def refine1(self, f, o, p, v, w, env, depth=0):
        x = env[o.i]
        if type(x) is G and all(type(y) in (int, AV) for _, y in x.alts):
            out = []
            for g, y in x.alts:
                e = {o.i: AV(y, y) if type(y) is int else y}
                if self.refine1(f, o, p, v, w, e, 99) is not False:
                    z = e[o.i]
                    out.append((g, y if type(y) is int else z))
            if not out:
                return False
            if len(out) < len(x.alts) or any(not same(a[1], b[1]) for a, b in zip(out, x.alts)):
                env[o.i] = self.mkG(out)
            return
        if type(x) is not AV:
            return
        bl, bh = (v, v) if type(v) is int else (v.lo, v.hi)
        lo, hi = x.lo, x.hi
        h = 1 << (w - 1)
        if p[0] == "s":
            # only when both are known non-negative, or comparison with const
            if hi < h and bh < h:
                p = "u" + p[1:]
            elif p in ("sgt", "sge") and bl == bh and (bl < h):
                # x > c >= 0  => x in (c, h)
                nl = bl + (p == "sgt")
                nh = min(hi, h - 1)
                nl = max(lo, nl)
                if nl > nh:
                    return False
                return self.put(f, o, nl, nh, env, x, depth)
            elif p == "sgt" and bl == bh == 2 * h - 1:     # x > -1
                return self.put(f, o, lo, min(hi, h - 1), env, x, depth)
            elif p == "sge" and bl == bh == 0:
                return self.put(f, o, lo, min(hi, h - 1), env, x, depth)
            elif p in ("slt", "sle") and bl == bh and bl < h and x.hi >= h:
                return
            elif p in ("slt",) and bl == bh == 0:
                return self.put(f, o, max(lo, h), hi, env, x, depth)
            else:
                return
        if p == "eq":
            lo, hi = max(lo, bl), min(hi, bh)
        elif p == "ne":
            if bl == bh:
                if lo == bl:
                    lo += 1
                elif hi == bl:
                    hi -= 1
        elif p == "ult":
            hi = min(hi, bh - 1)
        elif p == "ule":
            hi = min(hi, bh)
        elif p == "ugt":
            lo = max(lo, bl + 1)
        elif p == "uge":
            lo = max(lo, bl)
        if lo > hi:
            return False
        return self.put(f, o, lo, hi, env, x, depth)

    def put(self, f, o, lo, hi, env, x, depth):
        if lo > hi:
            return False
        if (lo, hi) == (x.lo, x.hi):
            return
        env[o.i] = lo if lo == hi and not x.lab else AV(lo, hi, x.lab, x.tm)
        d = self.defs[f].get(o.i)
        if d is not None and depth < 5 and d.op in ("zext", "sext") and type(d.a[0]) is L:
            y = env[d.a[0].i]
            if type(y) is AV:
                m = (1 << d.x.n) - 1
                if d.op == "zext" or (hi < (1 << (d.x.n - 1))):
                    return self.put(f, d.a[0], max(lo & m if lo <= m else lo, y.lo), min(hi, y.hi), env, y, depth + 1)
        if d is not None and d.op == "add" and type(d.a[1]) is int and type(d.a[0]) is L and depth < 5:
            y = env[d.a[0].i]
            c = d.a[1]
            if type(y) is AV:
                w = d.ty.n
                if c >> (w - 1):
                    c -= 1 << w
                if lo - c >= 0 and hi - c < (1 << w) and y.lo + c >= 0 and y.hi + c < (1 << w):
                    return self.put(f, d.a[0], max(lo - c, y.lo), min(hi - c, y.hi), env, y, depth + 1)

    # -------------------------------------------------------------- conveniences for checks
    def root(self, name, size, default, kind="input"):
        o = Obj(name, size, kind, default)
        return o

    def run(self, fname, args, st=None):
        f = self.ext.get(fname)
        if f is None:
            for m in self.mods:
                f = m.funcs.get(fname)
                if f:
                    break
        if f is None:
            raise AnalysisError("function %s not found" % fname)
        return self.call(f, args, st or State())


class Prover:
    """consequences of a set of literals by unit propagation over implications and disjunction atoms.
    Merge literals ("at") have a truth value only where their merge was passed, so only forward implications and
    the disjunctions recorded as facts are used."""

    def __init__(self, I):
        self.I = I
        self.cl = {}
        self.idx = {}
        self.keep = []

    def closed(self, c):
        r = self.cl.get(c)
        if r is None:
            r = self.cl[c] = frozenset(self.I.close(c))
        return r

    def consequences(self, lits, base=None):
        """set of derived literals, or None when contradictory.  base: result of an earlier call to extend"""
        I = self.I
        rev = I.A.rev
        out = set(base[0]) if base else set()
        ors = list(base[1]) if base else []
        todo = list(lits)
        while True:
            while todo:
                l = todo.pop()
                if l in out:
                    continue
                if -l in out:
                    return None
                out.add(l)
                todo.extend(I.A.impl.get(l, ()))
                if l > 0 and rev[l][0] == "or":
                    ors.append([self.closed(c) for c in rev[l][1]])
                elif l < 0 and rev[-l][0] == "all":
                    ors.append([frozenset([-x]) for x in rev[-l][1]])
            nxt = []
            for d in ors:
                live = [c for c in d if not contradict(c, out)]
                if len(live) > 1:
                    live = [c for c in live if not self.deep(c, (out,), 6)]
                if not live:
                    return None
                if len(live) == 1:
                    todo.extend(live[0])
                elif any(c <= out for c in live):
                    pass
                else:
                    nxt.append(live)
            ors = nxt
            if not todo:
                self.last = (out, ors)
                return out

    def deep(self, c, ctx, depth):
        """a disjunction required by c has no possible case in context ctx"""
        rev = self.I.A.rev
        for l in c:
            if l > 0 and rev[l][0] == "or":
                for d in rev[l][1]:
                    d = self.closed(d)
                    if any(contradict(d, x) for x in ctx) or contradict(d, c):
                        continue
                    if depth and self.deep(d, ctx + (c,), depth - 1):
                        continue
                    break
                else:
                    return True
        return False

    def atoms_in(self, d, acc, depth=6):
        rev = self.I.A.rev
        for c in d:
            for l in c:
                a = abs(l)
                if a in acc:
                    continue
                acc.add(a)
                if depth and l > 0 and rev[l][0] == "or":
                    self.atoms_in([self.closed(x) for x in rev[l][1]], acc, depth - 1)
        return acc

    def extend(self, base, lits):
        """consequences of base + lits, re-examining only the disjunctions that mention a new literal"""
        I = self.I
        rev = I.A.rev
        ix = self.idx.get(id(base))
        if ix is None:
            ix = {}
            for k, d in enumerate(base[1]):
                for a in self.atoms_in(d, set()):
                    ix.setdefault(a, []).append(k)
            self.idx[id(base)] = ix
            self.keep.append(base)
        b0 = base[0]
        new = set()
        extra = []
        todo = list(lits)
        ctx = (b0, new)
        while True:
            cand = set()
            changed = False
            while todo:
                l = todo.pop()
                if l in b0 or l in new:
                    continue
                if -l in b0 or -l in new:
                    return None
                new.add(l)
                changed = True
                cand.update(ix.get(abs(l), ()))
                todo.extend(I.A.impl.get(l, ()))
                if l > 0 and rev[l][0] == "or":
                    extra.append([self.closed(c) for c in rev[l][1]])
                elif l < 0 and rev[-l][0] == "all":
                    extra.append([frozenset([-x]) for x in rev[-l][1]])
            if not changed:
                return new
            for d in [base[1][k] for k in cand] + extra:
                live = [c for c in d if not contradict(c, b0) and not contradict(c, new)]
                if len(live) > 1:
                    live = [c for c in live if not self.deep(c, ctx, 6)]
                if not live:
                    return None
                if len(live) == 1:
                    todo.extend(live[0])

    def base(self, lits):
        r = self.consequences(lits)
        return None if r is None else self.last

    def entails(self, base, assumed, clause):
        """base (from .base()) + assumed |= disjunction of clause"""
        return self.extend(base, list(assumed) + [-x for x in clause]) is None


M64 = (1 << 64) - 1
BIN = {"add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "and", "or", "xor"}
DIV = {"udiv", "sdiv", "urem", "srem"}
CASTS = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"}
NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
       "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule",
        "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}
