"""Protocol-level models of the internal building blocks of poik.c whose bodies are analysed separately."""
from .ai import AV, G, Ptr, EMPTY, AnalysisError
from .prims import readn, padd, isnull, apply, labs, tmof, combos


def flat(I, st, vals):
    cs = combos(I, st, vals)
    return cs[0][1] if len(cs) == 1 else [I.jflat(v, v.alts[0][1]) if type(v) is G else v for v in vals]


def step(pr, side):
    """Isogeny_A / Isogeny_B (E, K, EE, Q, back) -> bool"""
    n = pr.fe

    def prim(I, st, args, ins):
        if len(args) != 5:
            raise AnalysisError("unexpected arity of isogeny step at " + I.where(ins))
        E = flat(I, st, readn(I, st, args[0], [n] * 4, ins))
        K = flat(I, st, readn(I, st, args[1], [n] * 4, ins))
        lab = labs(I, E + K)
        e = I.T("cv4", *[tmof(I, x) for x in E])
        k = I.T("pt", *[tmof(I, x) for x in K])
        iso = I.T("iso" + side, e, k)
        ok = I.A.fresh("step-ok")
        I.A.impl[ok] = frozenset([I.A("step" + side, e, k)])
        s2 = st.fork()
        I.assume(s2, [-ok])
        I.assume(st, [ok])

        def put(p, what, extra=EMPTY):
            for i in range(4):
                I.write(st, padd(I, p, i * n), n, AV(0, (1 << 8 * n) - 1, lab | extra, I.T("o", i, what)), ins)
        Q = args[3]
        if not isnull(Q):
            q = flat(I, st, readn(I, st, Q, [n] * 4, ins))
            put(Q, I.T("push", iso, I.T("pt", *[tmof(I, x) for x in q])), labs(I, q))
        if not isnull(args[2]):
            put(args[2], I.T("cod", iso))
        if not isnull(args[4]):
            put(args[4], I.T("back", iso), frozenset(["RND"]) if side == "B" else EMPTY)
        if I.hooks is not None and hasattr(I.hooks, "step"):
            I.hooks.step(I, st, side, e, k, args, ins)
        return [(st, 1), (s2, 0)]
    return prim


def canonical(pr):
    """canonical_model(E, iso): a model of the curve depending on the curve only"""
    n = pr.fe

    def prim(I, st, args, ins):
        E = flat(I, st, readn(I, st, args[0], [n] * 4, ins))
        lab = labs(I, E)
        t = I.T("canon", I.T("cv4", *[tmof(I, x) for x in E]))
        for i in range(6):
            I.write(st, padd(I, args[1], i * n), n, AV(0, (1 << 8 * n) - 1, lab, I.T("o", i, t)), ins)
    return prim


def check_curve(pr):
    n = pr.fe

    def prim(I, st, args, ins):
        E = flat(I, st, readn(I, st, args[0], [n] * 4, ins))
        ok = I.A.fresh("curve-ok")
        I.A.impl[ok] = frozenset([I.A("ss", I.T("cv4", *[tmof(I, x) for x in E]))])
        s2 = st.fork()
        I.assume(s2, [-ok])
        I.assume(st, [ok])
        return [(st, 1), (s2, 0)]
    return prim


def protocol(pr):
    return {"Isogeny_A": step(pr, "A"), "Isogeny_B": step(pr, "B"), "canonical_model": canonical(pr), "Check_Curve": check_curve(pr)}
