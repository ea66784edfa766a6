"""Footprints of worker threads: which bytes of shared objects each unit of work touches, and how."""
import os, re
from . import build, ai, vrun, prun
from .ai import AV, G, Ptr, EMPTY, AnalysisError, State


class Foot(vrun.Hooks):
    """records accesses to objects that existed before the workers were started, per unit of concurrency"""

    def __init__(self):
        super().__init__()
        self.wid = 0
        self.acc = {}               # obj -> {(unit, write, atomic): [(lo, hi, where-instruction)]}
        self.nacc = 0
        self.freed = []
        self.wbase = None
        self.creates = set()
        self.counters = {}          # cell -> name
        self.resets = []
        self.arg = {}

    def access(self, I, st, p, n, ins, what):
        if self.inworker:
            o = p.obj
            if o.kind == "global":
                if getattr(o, "site", None) == "const":
                    return
            elif o.n > self.wbase:
                return
            unit = None
            for g in st.ghost:
                if g[0] == "tickets":
                    unit = g[1]
            unit = (("w", self.wid, phase(st)),) + (unit or ())
        elif any(g[0] == "live" for g in st.ghost):
            o = p.obj
            if o.kind == "global" and getattr(o, "site", None) == "const":
                return
            unit = (("main", 0, phase(st)),)
        else:
            return
        lo, hi = I.offs(p.off)
        hi += n
        op = getattr(ins, "op", None)
        atomic = op in ("atomicrmw", "cmpxchg") or (op in ("load", "store") and ins.x == "atomic")
        if what == "write" and self.inworker and (op == "atomicrmw" and ins.x in ("add", "sub") or op == "cmpxchg"):
            self.ticket(st, (o.n, lo), o)
        if atomic:
            held = EMPTY
        else:
            held = next((g[1] for g in st.ghost if g[0] == "locks"), EMPTY)
        k = (unit, what == "write", atomic or held)
        d = self.acc.setdefault(o, {}).setdefault(k, [])
        self.nacc += 1
        if d and d[-1][0] <= lo <= d[-1][1]:
            if hi > d[-1][1]:
                d[-1] = (d[-1][0], hi, d[-1][2])
        else:
            d.append((lo, hi, ins))

    def ticket(self, st, cell, o):
        """the worker has drawn a number no other worker gets"""
        self.counters[cell] = o.name
        t = dict(next((g[1] for g in st.ghost if g[0] == "tickets"), ()))
        t[cell] = self.count(st, cell)
        st.ghost = tuple(g for g in st.ghost if g[0] != "tickets") + (("tickets", tuple(sorted(t.items()))),)

    def store(self, I, st, p, ins, v):
        super().store(I, st, p, ins, v)
        if self.inworker and ins.op == "store" and ins.x != "atomic" and type(p) is Ptr and p.obj.n <= self.wbase and type(p.off) is int and type(v) is int:
            if any(g[0] == "locks" for g in st.ghost):
                self.ticket(st, (p.obj.n, p.off), p.obj)

    def count(self, st, cell):
        for g in st.ghost:
            if g[0] == "drawn" and g[1] == cell:
                n = g[2] + 1
                break
        else:
            n = 0
        st.ghost = tuple(g for g in st.ghost if not (g[0] == "drawn" and g[1] == cell)) + (("drawn", cell, n),)
        return n


def phase(st):
    for g in st.ghost:
        if g[0] == "phase":
            return g[1]
    return 0


def exclusive(u, v):
    """are two units never concurrent?"""
    if u == v:
        return True
    if u[0][2] != v[0][2]:
        return True                 # separated by a join of all workers
    if u[0][0] == "main" or v[0][0] == "main":
        return False
    tu, tv = dict(u[1:]), dict(v[1:])
    if any(c in tv and tv[c] == x for c, x in tu.items()):
        return True                 # same ticket: same worker
    if tu and tv and set(tu) & set(tv):
        return False                # different tickets of one counter: possibly different workers
    if not tu and not tv:
        return u[0] == v[0]         # code outside tickets: the same worker
    return False


def synced(a, b):
    """both atomic, or under a common lock"""
    if a is True or b is True:
        return a is True and b is True
    return bool(a & b) if a and b else False


def conflicts(F, I):
    """[(object, offset, write instruction, other instruction, description)]"""
    out = []
    for o, d in F.acc.items():
        ev = []
        for (u, w, a), l in d.items():
            for lo, hi, ins in l:
                ev.append((lo, hi, u, w, a, ins))
        if not any(e[3] for e in ev):
            continue
        ev.sort(key=lambda e: e[0])
        act = []
        seen = set()
        for e in ev:
            act = [x for x in act if x[1] > e[0]]
            for x in act:
                if not (x[3] or e[3]) or synced(x[4], e[4]) or exclusive(x[2], e[2]):
                    continue
                w, r = (x, e) if x[3] else (e, x)
                k = (id(w[5]), id(r[5]))
                if k in seen:
                    continue
                seen.add(k)
                out.append((o, e[0], w[5], r[5], r[3]))
                if len(out) > 40:
                    return out
            # keep one representative per (unit, kind)
            act.append(e)
            if len(act) > 64:
                best = {}
                for x in act:
                    k = (x[2], x[3], x[4])
                    if k not in best or best[k][1] < x[1]:
                        best[k] = x
                act = list(best.values())
    return out


class Patched:
    """run VRun/PRun with footprint hooks"""

    def __enter__(self):
        self.old = (vrun.Hooks, prun.Hooks, vrun.threads, prun.threads)
        vrun.Hooks = prun.Hooks = Foot

        def threads(hooks, n=2):
            d = self.old[2](hooks, n)
            create = d["pthread_create"]

            def cr(I, st, args, ins):
                hooks.creates.add(id(ins))
                hooks.wid += 1
                a3 = I.prune(args[3], st.facts)
                hooks.arg[hooks.wid] = (a3.obj.n, a3.off) if type(a3) is Ptr else a3 if type(a3) is int else None
                if not any(g[0] == "live" for g in st.ghost):
                    n = phase(st) + 1
                    st.ghost = tuple(g for g in st.ghost if g[0] != "phase") + (("phase", n),)
                outs = create(I, st, args, ins)
                for s, v in outs:
                    s.ghost = tuple(g for g in s.ghost if g[0] != "tickets")
                return outs
            d["pthread_create"] = cr
            return d
        vrun.threads = prun.threads = threads
        return self

    def __exit__(self, *a):
        vrun.Hooks, prun.Hooks, vrun.threads, prun.threads = self.old


def judge(rep, name, r):
    F, I = r.hooks, r.I
    if not F.creates:
        rep.error("%s starts no thread" % name)
        return
    rep.count("accesses by workers to shared objects", F.nacc)
    rep.count("shared objects touched by workers", len(F.acc))
    units = {u for d in F.acc.values() for (u, w, a) in d}
    rep.count("units of work compared pairwise", len(units))
    cs = conflicts(F, I)
    rep.ok("no two units of work touch the same byte unless both only read or both are atomic", not cs, I.where(cs[0][2]) if cs else name,
           "" if not cs else "%s byte %d is written at %s and %s at %s by another thread" % (cs[0][0].name, cs[0][1], I.where(cs[0][2]), "written" if cs[0][4] else "read", I.where(cs[0][3])))
    # without a ticket or an argument of its own a worker cannot know which part of shared data is its own
    free = []
    for o, d in F.acc.items():
        for (u, w, a), l in d.items():
            if not w or a or u[0][0] == "main" or len(u) > 1:
                continue
            ph = u[0][2]
            same = [x for x in {q[0][1] for q in units if q[0][0] == "w" and q[0][2] == ph} if F.arg.get(x) == F.arg.get(u[0][1]) and x != u[0][1]]
            if same:
                free.append((o, l[0]))
    rep.ok("workers write shared memory only for work they drew", not free, I.where(free[0][1][2]) if free else name,
           "" if not free else "%s byte %d is written by a worker without a ticket from an atomic counter; another worker may do the same" % (free[0][0].name, free[0][1][0]))
    live = [s for s, v in r.outs if any(g[0] == "live" for g in s.ghost)]
    rep.ok("all workers are joined before results are used", not live, name, "returns while workers may still run")
    fail = [g for s, v in r.outs for g in s.ghost if g[0] in ("createfail", "joinfail")]
    rep.ok("a failed start or join is not ignored", not fail, name, "%s goes on after %s at %s" % (name, "pthread_create failed" if fail and fail[0][0] == "createfail" else "pthread_join failed", fail[0][1] if fail else ""))
    # work counters
    for ins, p, v, op in F.wstores:
        if type(p) is not Ptr or p.obj.n > F.wbase or op == "atomicrmw":
            continue
        if type(p.off) is int and (p.obj.n, p.off) in F.counters:
            lo, hi = I.rng(v)
            rep.ok("the work counter never moves backwards", lo >= r.lay.reps and op == "store", I.where(ins), "a worker stores a value below the number of repetitions into the work counter")
    tick = {x for u in units for c, x in u[1:]}
    rep.ok("work is handed out one repetition at a time", len(tick) >= r.lay.reps or len(units) <= 1 or not F.counters, name, "%d units for %d repetitions" % (len(tick), r.lay.reps))


def verify(rep, bits):
    with Patched():
        r = vrun.VRun(bits, threading=True)
    if r.missing:
        raise AnalysisError("boundary functions not found: %s" % r.missing)
    judge(rep, "poik.c Verify (P%d)" % bits, r)


def prove(rep, bits):
    with Patched():
        r = prun.PRun(bits, True)
    if r.missing:
        raise AnalysisError("boundary functions not found: %s" % r.missing)
    judge(rep, "poik.c Prove (P%d)" % bits, r)


# ------------------------------------------------------------------ global state in code that workers run
def refs(x, out):
    from .ir import GRef
    if isinstance(x, GRef):
        out.append(x.name)
    elif isinstance(x, (list, tuple)):
        for y in x:
            refs(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            refs(y, out)


def globalstate(rep, bits):
    mods = build.lib(bits, "poik", threading=True) + build.misc()
    funcs = {}
    for m in mods:
        for n, f in m.funcs.items():
            if f.order:
                funcs.setdefault(n, (m, f))
                if f.internal:
                    funcs[(m, n)] = (m, f)
    calls, uses, roots = {}, {}, set()
    for k, (m, f) in list(funcs.items()):
        if type(k) is tuple:
            continue
        cs, us = set(), []
        for b in f.order:
            for i in list(b.phis) + list(b.ins) + [b.term]:
                l = []
                refs(i.a, l)
                refs(i.x, l)
                for n in l:
                    if n in funcs:
                        cs.add(n)
                    elif n in m.globals:
                        us.append((n, i))
                for n in names(i):
                    if n in funcs:
                        cs.add(n)
                    if n == "pthread_create":
                        ll = []
                        refs(i.a, ll)
                        fns = [x for x in ll if x in funcs]
                        roots.update(fns)
                        if not fns:
                            roots.add(("indirect", k))
        calls[k], uses[k] = cs, us
    # a start routine passed through a parameter: whatever function addresses its callers hand over
    ind = {r[1] for r in roots if type(r) is tuple}
    roots = {r for r in roots if type(r) is not tuple}
    for fn in ind:
        for k, (m, f) in funcs.items():
            if type(k) is tuple:
                continue
            for b in f.order:
                for i in b.ins:
                    if i.op == "call" and fn in names(i):
                        l = []
                        refs(i.a, l)
                        roots.update(x for x in l if x in funcs and x != fn)
    if not roots:
        rep.error("no worker function found")
        return
    reach, todo = set(), list(roots)
    while todo:
        x = todo.pop()
        if x in reach:
            continue
        reach.add(x)
        todo += calls.get(x, ())
    rep.count("functions reachable from workers", len(reach))
    starters = {k for k, (m, f) in funcs.items() if type(k) is str and any("pthread_create" in names(i) for b in f.order for i in b.ins)}
    during, todo = set(), list(starters)
    while todo:
        x = todo.pop()
        if x in during or x in roots:
            continue
        during.add(x)
        todo += calls.get(x, ())
    # which mutable globals do workers use
    touched = {}
    for fn in reach:
        m, f = funcs[fn]
        for g, i in uses.get(fn, ()):
            G_ = m.globals[g]
            if G_.const or G_.tls:
                continue
            touched.setdefault((m.name if hasattr(m, "name") else id(m), g), []).append((fn, m, i, kind(i, g)))
    for (mn, g), l in sorted(touched.items(), key=lambda x: str(x[0])):
        plain = [x for x in l if x[3] != "atomic"]
        writes = [x for x in plain if x[3] != "load"]
        # writers among code the starting thread runs meanwhile
        other = [(fn, funcs[fn][0], i, kind(i, g)) for fn in during - reach for gg, i in uses.get(fn, ()) if gg == g and kind(i, g) not in ("load",)]
        bad = writes or (plain and other)
        w = (writes or plain or l)[0]
        rep.ok("code run by workers changes no unsynchronised global state", not bad, "%s in %s" % (w[1].loc(w[2].dbg), w[0]),
               "the variable %s, which all threads share, is %s without synchronisation" % (g, "accessed" if not writes else "written or handed out"))
    rep.count("global variables used by workers", len(touched))
    rep.ok("worker functions found", len(reach) > 20, "poik.c (P%d)" % bits, "only %d functions" % len(reach))
    # assembly routines keep no state
    p = os.path.join(build.SRC, "P%d" % bits, "AMD64", "fp_x64_asm.S")
    if os.path.exists(p):
        for n, l in enumerate(open(p, errors="replace"), 1):
            m = re.match(r"\s*(mov\w*|add|adc|sub|sbb|xor|and|or|xchg|push|pop|stos\w*)\s+(qword ptr |dword ptr )?\[\s*rip", l.lower())
            rep.count("assembly lines scanned")
            if m and m.group(1) not in ("push",):
                rep.ok("assembly routines keep no state", False, "fp_x64_asm.S:%d (P%d)" % (n, bits), "writes to a static location: " + l.strip())


def names(i):
    """callee names of a call instruction"""
    if i.op != "call":
        return ()
    x = i.x
    out = []
    l = []
    refs(x, l)
    out += l
    if type(x) is str:
        out.append(x)
    for k in ("name",):
        v = getattr(x, k, None)
        if type(v) is str:
            out.append(v)
    if isinstance(x, (list, tuple)):
        for y in x:
            v = getattr(y, "name", None)
            if type(v) is str:
                out.append(v)
            if type(y) is str:
                out.append(y)
    return out


def kind(i, g):
    """how an instruction uses a global"""
    if i.op in ("atomicrmw", "cmpxchg"):
        return "atomic"
    if i.op in ("load", "store") and i.x == "atomic":
        return "atomic"
    if i.op == "load":
        return "load"
    if i.op in ("getelementptr", "bitcast", "phi", "select") and i.res is not None:
        # only an address so far: what becomes of it
        f = i.fn
        addr, todo = set(), [i.res.i]
        while todo:
            x = todo.pop()
            if x in addr:
                continue
            addr.add(x)
            for b in f.order:
                for j in list(b.phis) + list(b.ins) + [b.term]:
                    us = []
                    locs(j.a, us)
                    locs(j.x, us)
                    if x not in us:
                        continue
                    if j.op in ("getelementptr", "bitcast", "phi", "select"):
                        todo.append(j.res.i)
                    elif j.op == "load" or j.op == "icmp" or (j.op in ("atomicrmw", "cmpxchg")) or (j.op == "store" and j.x == "atomic"):
                        pass
                    else:
                        return "use"
        return "load"
    return "use"


def locs(x, out):
    from .ir import L
    if isinstance(x, L):
        out.append(x.i)
    elif isinstance(x, (list, tuple)):
        for y in x:
            locs(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            locs(y, out)
