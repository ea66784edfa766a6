"""Affine-relation analysis of one function: paths are followed symbolically only between loop heads; at loop heads the
inductive affine equalities between the loop variables, the ghost count of delivered bytes and the entry values are kept
(Karr's domain), so the result covers every number of iterations."""
from fractions import Fraction as Q


class Unsupported(Exception):
    pass


class Restart(Exception):
    pass


class Lin:
    __slots__ = ("d", "c")

    def __init__(self, d=None, c=0):
        self.d = {k: v for k, v in (d or {}).items() if v}
        self.c = Q(c)

    def __add__(self, o, s=1):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + s * v
        return Lin(d, self.c + s * o.c)

    def __sub__(self, o):
        return self.__add__(o, -1)

    def scale(self, k):
        return Lin({a: v * k for a, v in self.d.items()}, self.c * k)

    def const(self):
        return self.c if not self.d else None

    def __repr__(self):
        return "+".join(["%s*%s" % (v, k) for k, v in self.d.items()] + [str(self.c)])


def C(v):
    return Lin(None, v)


def feasible(ineqs, limit=400):
    """rational satisfiability of a list of expressions >= 0 (Fourier-Motzkin); True when undecided"""
    cur = list(ineqs)
    while True:
        vs = set()
        nxt = []
        for e in cur:
            if not e.d:
                if e.c < 0:
                    return False
                continue
            nxt.append(e)
            vs |= set(e.d)
        cur = nxt
        if not vs:
            return True
        best = min(vs, key=lambda v: sum(1 for e in cur if e.d.get(v, 0) > 0) * sum(1 for e in cur if e.d.get(v, 0) < 0))
        pos = [e for e in cur if e.d.get(best, 0) > 0]
        neg = [e for e in cur if e.d.get(best, 0) < 0]
        cur = [e for e in cur if best not in e.d]
        for p in pos:
            for n in neg:
                cur.append(p.scale(-n.d[best]) + n.scale(p.d[best]))
        if len(cur) > limit:
            return True


class Path:
    __slots__ = ("env", "F", "g", "heads", "log")

    def __init__(self):
        self.env, self.F, self.g, self.heads, self.log = {}, C(0), [], {}, ()

    def fork(self):
        p = Path()
        p.env, p.F, p.g, p.heads, p.log = dict(self.env), self.F, list(self.g), dict(self.heads), self.log
        return p


class Fill:
    """does every successful return of f(buf, n) come after n bytes were delivered by the system generator?"""

    def __init__(self, mod, fname):
        self.mod = mod
        self.f = mod.funcs[fname]
        self.V = {}
        self.n = 0
        self.bad = []
        self.rets = 0
        self.sources = set()
        self.opens = []
        self.steps = 0
        while True:
            self.bad, self.rets, self.n, self.steps = [], 0, 0, 0
            self.opens = []
            try:
                self.start()
                break
            except Restart:
                continue

    def sym(self, name="s"):
        self.n += 1
        return Lin({"%s%d" % (name, self.n): Q(1)})

    def start(self):
        p = Path()
        f = self.f
        self.P, self.N = Lin({"P": Q(1)}), Lin({"N": Q(1)})
        p.env[f.params[0].i], p.env[f.params[1].i] = self.P, self.N
        for x in f.params[2:]:
            p.env[x.i] = self.sym()
        p.g.append(self.N)
        work = [(p, f.order[0], None)]
        while work:
            p, b, pred = work.pop()
            self.steps += 1
            if self.steps > 4000:
                raise Unsupported("too many paths")
            work += self.block(p, b, pred)

    def val(self, p, v, w=64):
        if type(v) is int:
            return C(v - (1 << w) if w and v >> (w - 1) & 1 and v < 1 << w else v)
        if hasattr(v, "i"):
            return p.env.get(v.i) or self.sym("u")
        return self.sym("g")

    # -- proving
    def proves(self, p, e):
        """e >= 0 follows (integers: e < 0 means -e-1 >= 0)"""
        return not feasible(p.g + [e.scale(-1) - C(1)])

    def assume(self, p, e):
        p.g.append(e)
        return feasible(p.g)

    def block(self, p, b, pred):
        f = self.f
        phis = b.phis
        vals = [(i, self.val(p, i.x[pred.name], i.ty.size * 8 if i.ty.k == "int" else 64)) for i in phis]
        if b in f.loops:
            ent = p.heads.get(b)
            back = pred is not None and pred in f.loops[b]
            if back and ent is not None:
                return self.again(p, b, vals, ent)
            # entry from outside: variables of the loop become parameters restricted by the relations known so far
            base = [v for _, v in vals] + [p.F]
            k = len(base)
            V = self.V.get(b.name)
            if V is None:
                V = self.V[b.name] = [[Q(int(i == j)) for j in range(k)] for i in range(k)]
            # d = base difference; V d = 0.  reduced echelon: pivots expressed by the others
            piv = {}
            for row in V:
                j = next(q for q in range(k) if row[q])
                piv[j] = row
            free = {j: self.sym("t") for j in range(k) if j not in piv}
            diff = []
            for j in range(k):
                if j in free:
                    diff.append(free[j])
                else:
                    e = C(0)
                    for q, c in enumerate(piv[j]):
                        if q != j and c and q in free:
                            e = e + free[q].scale(-c)
                    diff.append(e)
            for (i, v), d in zip(vals, diff):
                p.env[i.res.i] = v + d
                if d.d and i.ty.k == "int":
                    p.g.append(v + d) if self.nonneg(i) else None
            p.F = p.F + diff[-1]
            p.heads[b] = base
        else:
            for i, v in vals:
                p.env[i.res.i] = v
        return self.run(p, b, list(b.ins) + [b.term])

    def nonneg(self, i):
        """a 64-bit loop variable is treated as unsigned unless it is compared as a signed number"""
        return i.ty.n == 64 and i.res.i not in self.signed()

    def signed(self):
        if not hasattr(self, "_sg"):
            self._sg = set()
            for b in self.f.order:
                for i in b.ins:
                    if i.op == "icmp" and str(i.x).startswith("s"):
                        for a in i.a:
                            if hasattr(a, "i"):
                                self._sg.add(a.i)
        return self._sg

    def again(self, p, b, vals, base):
        cur = [v for _, v in vals] + [p.F]
        d = [x - y for x, y in zip(cur, base)]
        for k in {k for e in d for k in e.d}:
            e = Lin({k: Q(1)})
            if self.proves(p, e) and self.proves(p, e.scale(-1)):
                d = [Lin({a: v for a, v in x.d.items() if a != k}, x.c) for x in d]
        V = self.V[b.name]
        # keep the combinations of rows that vanish on d
        res = [sum((x.scale(c) for c, x in zip(row, d)), C(0)) for row in V]
        if all(not e.d and e.c == 0 for e in res):
            return []
        keys = sorted({k for e in res for k in e.d})
        m = [[e.d.get(k, Q(0)) for k in keys] + [e.c] for e in res]
        rows = [list(V[i]) for i in range(len(V))]
        # eliminate: row operations making residues zero
        ncol = len(keys) + 1
        live = list(range(len(rows)))
        for c in range(ncol):
            pv = next((i for i in live if m[i][c]), None)
            if pv is None:
                continue
            for i in live:
                if i != pv and m[i][c]:
                    fct = m[i][c] / m[pv][c]
                    m[i] = [x - fct * y for x, y in zip(m[i], m[pv])]
                    rows[i] = [x - fct * y for x, y in zip(rows[i], rows[pv])]
            live.remove(pv)
        self.V[b.name] = rref([rows[i] for i in live])
        raise Restart()

    def run(self, p, b, instrs):
        f = self.f
        for k, I in enumerate(instrs):
            op = I.op
            rest = instrs[k + 1:]
            r = I.res.i if I.res is not None else None
            w = I.ty.n if I.ty is not None and I.ty.k == "int" else 64
            if op in ("add", "sub"):
                a, c = self.val(p, I.a[0], w), self.val(p, I.a[1], w)
                p.env[r] = a + c if op == "add" else a - c
            elif op == "mul" or op == "shl":
                a, c = self.val(p, I.a[0], w), self.val(p, I.a[1], w)
                if op == "shl" and c.const() is not None:
                    p.env[r] = a.scale(2 ** int(c.const()))
                elif op == "mul" and c.const() is not None:
                    p.env[r] = a.scale(c.const())
                elif op == "mul" and a.const() is not None:
                    p.env[r] = c.scale(a.const())
                else:
                    p.env[r] = self.sym()
            elif op == "getelementptr":
                off, var = I.x
                e = self.val(p, I.a[0]) + C(off if off < 1 << 63 else off - (1 << 64))
                for v, n, sc in var:
                    e = e + self.val(p, v, n).scale(sc)
                p.env[r] = e
            elif op in ("zext", "sext", "trunc", "bitcast", "freeze", "ptrtoint", "inttoptr"):
                fw = getattr(I.x, "n", 64) if I.x is not None and hasattr(I.x, "n") else 64
                a = self.val(p, I.a[0], fw)
                if op in ("bitcast", "freeze", "ptrtoint", "inttoptr"):
                    p.env[r] = a
                elif op == "trunc":
                    ok = a.const() is not None and -(1 << (w - 1)) <= a.const() < 1 << (w - 1) or self.proves(p, a) and self.proves(p, C((1 << (w - 1)) - 1) - a)
                    p.env[r] = a if ok else self.sym()
                elif op == "sext":
                    p.env[r] = a
                else:
                    if a.const() is not None and a.const() < 0:
                        p.env[r] = C(a.const() + (1 << fw))
                    else:
                        p.env[r] = a if a.const() is not None or self.proves(p, a) or fw == 1 else self.sym()
            elif op == "icmp":
                w2 = I.ty.n if I.ty.k == "int" else 64
                p.env[r] = Lin({("cmp", I.x, I): Q(1)})
                p.env[("cmp", r)] = (I.x, self.val(p, I.a[0], w2), self.val(p, I.a[1], w2))
            elif op in ("and", "or", "xor") and w == 1:
                p.env[r] = self.sym("b")
                x = [self.bools(p, q) for q in I.a]
                if op in ("and", "or"):
                    p.env[("cmp", r)] = (op, I.a[0], I.a[1])
                elif I.a[1] in (1, -1):
                    p.env[("cmp", r)] = ("not", I.a[0], None)
            elif op == "select":
                t, e = p.fork(), p
                out = []
                for q, truth, v in ((t, True, I.a[1]), (e, False, I.a[2])):
                    for q2 in self.branch(q, I.a[0], truth):
                        q2.env[r] = self.val(q2, v, w)
                        out.append(q2)
                return [z for q2 in out for z in self.run(q2, b, rest)]
            elif op == "call":
                outs = self.call(p, I, r)
                if outs is None:
                    continue
                return [z for q in outs for z in self.run(q, b, rest)]
            elif op in ("store", "fence", "alloca"):
                if op == "alloca":
                    p.env[r] = self.sym("a")
            elif op == "br":
                return [(p, f.blocks[I.x], b)]
            elif op == "condbr":
                out = []
                t = p.fork()
                for q, truth, tgt in ((t, True, I.x[0]), (p, False, I.x[1])):
                    out += [(q2, f.blocks[tgt], b) for q2 in self.branch(q, I.a[0], truth)]
                return out
            elif op == "switch":
                out = []
                v = self.val(p, I.a[0], I.ty.n)
                d, cases = I.x
                for cv, tgt in cases:
                    q = p.fork()
                    e = v - C(cv - (1 << I.ty.n) if cv >> (I.ty.n - 1) & 1 else cv)
                    if self.assume(q, e) and self.assume(q, e.scale(-1)):
                        out.append((q, f.blocks[tgt], b))
                out.append((p, f.blocks[d], b))
                return out
            elif op == "ret":
                self.ret(p, I)
                return []
            elif op == "unreachable":
                return []
            else:
                if r is not None:
                    p.env[r] = self.sym("v")
        return []

    def bools(self, p, v):
        return None

    def branch(self, p, c, truth):
        """paths on which the condition has the given truth value"""
        if type(c) is int:
            return [p] if bool(c & 1) == truth else []
        k = p.env.get(("cmp", c.i)) if hasattr(c, "i") else None
        if k is None:
            e = p.env.get(c.i) if hasattr(c, "i") else None
            if e is not None and e.const() is not None:
                return [p] if bool(e.const()) == truth else []
            return [p]
        op, a, b = k
        if op == "not":
            return self.branch(p, a, not truth)
        if op in ("and", "or"):
            if (op == "and") == truth:
                return [q2 for q in self.branch(p, a, truth) for q2 in self.branch(q, b, truth)]
            r = self.branch(p.fork(), a, truth)
            return r + [q2 for q in self.branch(p.fork(), a, not truth) for q2 in self.branch(q, b, truth)]
        neg = {"eq": "ne", "ne": "eq", "gt": "le", "le": "gt", "lt": "ge", "ge": "lt"}
        u = op[0] == "u" and op not in ("eq", "ne")
        o = op if op in ("eq", "ne") else op[1:]
        if not truth:
            o = neg[o]
        d = a - b
        if u:
            # unsigned: a negative constant stands for a huge number
            for x in (a, b):
                if x.const() is not None and x.const() < 0:
                    return [p]
        if o == "eq":
            p2 = p
            return [p2] if self.assume(p2, d) and self.assume(p2, d.scale(-1)) else []
        if o == "ne":
            out = []
            for s in (1, -1):
                q = p.fork()
                if self.assume(q, d.scale(s) - C(1)):
                    out.append(q)
            return out
        e = {"gt": d - C(1), "ge": d, "lt": d.scale(-1) - C(1), "le": d.scale(-1)}[o]
        return [p] if self.assume(p, e) else []

    def call(self, p, I, r):
        callee, tys = I.x
        name = getattr(callee, "name", None)
        if name is None:
            raise Unsupported("indirect call")
        if name.startswith("llvm."):
            if name.startswith("llvm.expect"):
                p.env[r] = self.val(p, I.a[0])
                k = p.env.get(("cmp", I.a[0].i)) if hasattr(I.a[0], "i") else None
                if k:
                    p.env[("cmp", r)] = k
            elif r is not None:
                p.env[r] = self.sym()
            return None
        where = self.mod.loc(I.dbg)
        if name in ("read", "getrandom", "getentropy", "SYS_getrandom"):
            fd = name == "read"
            buf, ln = (I.a[1], I.a[2]) if fd else (I.a[0], I.a[1])
            buf, ln = self.val(p, buf), self.val(p, ln)
            self.sources.add("%s at %s" % (name, where))
            bad = p.fork()
            bad.env[r] = C(-1)
            bad.log += (("failed", where),)
            at = buf - self.P - p.F
            here = not at.d and at.c == 0 or self.proves(p, at) and self.proves(p, at.scale(-1))
            if name == "getentropy":
                p.env[r] = C(0)
                if here:
                    p.F = p.F + ln
            else:
                s = self.sym("r")
                p.env[r] = s
                p.g.append(s)
                p.g.append(ln - s)
                if here:
                    p.F = p.F + s
            if not here:
                p.log += (("the bytes are not placed directly behind those already delivered", where),)
            return [p, bad]
        if name in ("open", "open64", "openat"):
            self.opens.append((I, where))
            bad = p.fork()
            bad.env[r] = C(-1)
            s = self.sym("fd")
            p.env[r] = s
            p.g.append(s)
            return [p, bad]
        if name in self.mod.funcs and self.mod.funcs[name].order:
            raise Unsupported("call of %s was not inlined" % name)
        if name in ("abort", "exit", "_exit", "__assert_fail"):
            return []
        for a, t in zip(I.a, tys):
            e = self.val(p, a)
            if e.d.get("P"):
                if name in ("memset", "explicit_bzero", "bzero"):
                    continue
                raise Unsupported("buffer handed to %s at %s" % (name, where))
        if r is not None:
            p.env[r] = self.sym("x")
        return None

    def ret(self, p, I):
        self.rets += 1
        v = self.val(p, I.a[0], 32) if I.a else C(0)
        if self.proves(p, v - C(1)) or self.proves(p, v.scale(-1) - C(1)):
            return
        k = p.env.get(("cmp", I.a[0].i)) if I.a and hasattr(I.a[0], "i") else None
        if not self.proves(p, p.F - self.N):
            self.bad.append((self.mod.loc(I.dbg), p.log))


def rref(rows):
    rows = [list(r) for r in rows]
    out = []
    n = len(rows[0]) if rows else 0
    i = 0
    for c in range(n):
        pv = next((k for k in range(i, len(rows)) if rows[k][c]), None)
        if pv is None:
            continue
        rows[i], rows[pv] = rows[pv], rows[i]
        f = rows[i][c]
        rows[i] = [x / f for x in rows[i]]
        for k in range(len(rows)):
            if k != i and rows[k][c]:
                f = rows[k][c]
                rows[k] = [x - f * y for x, y in zip(rows[k], rows[i])]
        i += 1
    return [r for r in rows if any(r)]
