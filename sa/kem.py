"""Abstract runs of the key encapsulation functions: delivery of randomness, implicit rejection."""
from . import build, ai, prims, macros
from .ai import AV, G, Ptr, EMPTY, AnalysisError, State
from .prims import padd, uf, readn


class Hooks:
    def __init__(self):
        self.problems = []

    def problem(self, I, kind, ins, msg, **kw):
        self.problems.append((kind, I.where(ins), msg))


def draws(log):
    """the random source: fills everything, or fails and leaves the buffer alone"""
    def prim(I, st, args, ins):
        n = I.prune(args[1], st.facts)
        if type(n) is not int:
            raise AnalysisError("length of a random draw at " + I.where(ins))
        ok = I.A.fresh("rng-ok")
        s2 = st.fork()
        I.assume(st, [ok])
        I.assume(s2, [-ok])
        k = len(log)
        t = I.T.fresh("rnd")
        log.append((ins, n, t))
        s2.ghost = s2.ghost + (("rngfail", I.where(ins)),)
        I.write(st, args[0], n, AV(0, (1 << 8 * n) - 1, frozenset([("rnd", k)]), t), ins)
        return [(st, 0), (s2, AV(1, (1 << 32) - 1))]
    return prim


class KEM:
    def __init__(self, bits, kind, arch="fast"):
        self.bits, self.kind = bits, kind
        self.mods = build.lib(bits, kind, arch)
        m = self.m = macros.lib(bits, kind, arch)
        self.MSG, self.SKA, self.SKB, self.FP2 = m["MSG_BYTES"], m["SECRETKEY_A_BYTES"], m["SECRETKEY_B_BYTES"], m["FP2_ENCODED_BYTES"]
        self.PK, self.SK, self.CT, self.SS = m["CRYPTO_PUBLICKEYBYTES"], m["CRYPTO_SECRETKEYBYTES"], m["CRYPTO_CIPHERTEXTBYTES"], m["CRYPTO_BYTES"]
        self.events, self.rnd, self.hooks = [], [], Hooks()
        self.suf = "_SIDHp%d%s" % (bits, "_Compressed" if kind == "compressed" else "")
        self.ksuf = "_SIKEp%d%s" % (bits, "_compressed" if kind == "compressed" else "")
        pp = {}
        for d in (prims.ct(), prims.libc(), prims.hashing(self.events)):
            pp.update(d)
        pp["randombytes"] = draws(self.rnd)
        self.bound = {}
        b = self.bound
        S = self.suf
        if kind == "plain":
            b["EphemeralKeyGeneration_A" + S] = self.ret(uf("ekgA", [(0, [self.SKA])], [(1, [self.PK])]))
            b["EphemeralKeyGeneration_B" + S] = self.ret(uf("ekgB", [(0, [self.SKB])], [(1, [self.PK])]))
            b["EphemeralSecretAgreement_A" + S] = self.ret(uf("esaA", [(0, [self.SKA]), (1, [self.PK])], [(2, [self.FP2])]))
            b["EphemeralSecretAgreement_B_extended"] = self.agree("esaB", self.SKB, self.PK, self.FP2)
        else:
            self.CHUNK = m["PARTIALLY_COMPRESSED_CHUNK_CT"]
            b["EphemeralKeyGeneration_A_extended"] = self.ret(self.keygenA)
            b["EphemeralKeyGeneration_B_extended"] = self.ret(uf("ekgB", [(0, [self.SKB])], [(1, [self.CHUNK])]))
            b["EphemeralSecretAgreement_B" + S] = self.ret(uf("esaB", [(0, [self.SKB]), (1, [self.PK])], [(2, [self.FP2])]))
            b["EphemeralSecretAgreement_A_extended"] = self.agree("esaA", self.SKA, self.CHUNK, 3 * self.FP2 + self.SKA)
            b["validate_ciphertext"] = self.validate
            b["FormatPrivKey_B"] = uf("fmtB", [(0, [self.SKB])], [(0, [self.SKB])])
        self.missing = [n for n in b if n not in self.mods[0].funcs]
        pp.update(b)
        self.I = ai.Interp(self.mods, pp, hooks=self.hooks)
        self.failval, self.verdict = 1, True
        self.agreements = []

    def ret(self, f):
        def prim(I, st, args, ins):
            f(I, st, args, ins)
            return 0
        return prim

    def keygenA(self, I, st, args, ins):
        # public key, and the trailing part of the extended private key
        uf("ekgA", [(0, [self.SKA])], [(1, [self.PK])])(I, st, args, ins)
        uf("ekgA2", [(0, [self.SKA])], [(1, [self.FP2])])(I, st, [args[0], padd(I, args[0], self.SKA + self.PK)], ins)

    def agree(self, name, nsk, npk, nout):
        def prim(I, st, args, ins):
            sk, pk = I.read(st, args[0], nsk, ins), I.read(st, args[1], npk, ins)
            sike = I.prune(args[3], st.facts) if len(args) > 3 else 0
            key = I.T(name, prims.tmof(I, sk), prims.tmof(I, pk))
            a = I.A("agree", key)
            self.agreements.append((I.where(ins), key, sike, I.T.rev[prims.tmof(I, pk)]))
            lab = I.labels(sk) | I.labels(pk)
            if sike == 1 and self.verdict is not None:
                I.assume(st, [a if self.verdict else -a])
                if not self.verdict:
                    return [(st, self.failval)]
            parts = [self.FP2] + ([nout - self.FP2] if nout > self.FP2 else [])
            off = 0
            for i, n in enumerate(parts):
                I.write(st, padd(I, args[2], off), n, AV(0, (1 << 8 * n) - 1, lab, I.T("o", i, key)), ins)
                off += n
            return [(st, 0)]
        return prim

    def validate(self, I, st, args, ins):
        vs = [I.read(st, args[0], self.SKB, ins), I.read(st, args[1], self.CHUNK, ins), I.read(st, args[2], self.FP2, ins), I.read(st, args[3], 2 * self.FP2 + self.SKA, ins)]
        l = I.A("ctvalid", *[prims.tmof(I, v) for v in vs])
        return G(((frozenset([l]), 0), (frozenset([-l]), 0xff)))

    # ------------------------------------------------------------- inputs
    def inp(self, name, size, cut=()):
        """input object; bytes labelled with the part they belong to"""
        cuts = sorted(set(cut) | {0})

        def f(I, o, off, n):
            part = max(c for c in cuts if c <= off)
            return I.input(name, off, n, frozenset([(name, part)]))
        return self.I.root(name, size, f)

    def run(self, fn, args):
        return self.I.run(fn + self.ksuf, args, State())


def rets(v):
    return v.alts if type(v) is G else ((EMPTY, v),)


def failing(rep, I, outs, name, want="nonzero"):
    """C08: a path on which the source failed reports failure or does not return"""
    n = 0
    for s, v in outs:
        fails = [g for g in s.ghost if g[0] == "rngfail"]
        if not fails:
            continue
        for g, x in rets(v) if v is not None else ((EMPTY, None),):
            if x is not None and I.contra(g, s.facts):
                continue
            n += 1
            if x is None:
                ok = False
            else:
                lo, hi = I.rng(x)
                ok = lo > 0 if want == "nonzero" else hi == 0
            rep.ok("a failed draw is reported or aborts", ok, name,
                   "%s although the random source failed at %s" % ("returns" if x is None else "returns %s" % (x if type(x) is int else "success"), fails[-1][1]))
    rep.count("paths on which a draw failed", n)
    return n


def succeeded(outs):
    return [(s, v) for s, v in outs if not any(g[0] == "rngfail" for g in s.ghost)]


def secret_bytes(rep, I, s, p, n, what, name, fresh=None):
    """every byte comes from a draw"""
    used = set()
    for off, k, v in I.read_slices(s, p, n):
        for g, x in rets(v):
            labs = I.labels(x) or EMPTY
            r = {l for l in labs if l[0] == "rnd"}
            rep.ok("secret material is filled from the random source", bool(r) and "UNDEF" not in labs, name,
                   "bytes %d..%d of %s %s" % (off, off + k - 1, what, "are not random" if not r else "may be unfilled"))
            used |= r
    return used


def delivery(rep, bits, kind):
    """C08 for the encapsulation functions of one parameter set"""
    for fn in ("random_mod_order_A", "random_mod_order_B"):
        K = KEM(bits, kind)
        if K.missing:
            raise AnalysisError("boundary functions not found: %s" % K.missing)
        I = K.I
        full = fn + "_SIDHp%d" % bits
        n = K.SKA if fn.endswith("A") else K.SKB
        o = I.root("out", n, "undef")
        outs = I.run(full, [Ptr(o, 0)], State())
        name = "%s (%s)" % (full, kind)
        rep.ok("draws exist", failing(rep, I, outs, name) > 0, name, "no path with a failed draw: the random source is not consulted")
        for s, v in succeeded(outs):
            masked = 0
            for off, k, v in I.read_slices(s, Ptr(o, 0), n):
                for g, x in rets(v):
                    labs = I.labels(x) or EMPTY
                    lo, hi = I.rng(x)
                    if hi == 0:
                        masked += 1        # a byte masked away completely
                        continue
                    r = {l for l in labs if l[0] == "rnd"}
                    rep.ok("secret material is filled from the random source", bool(r) and "UNDEF" not in labs, name,
                           "bytes %d..%d of the secret key %s" % (off, off + k - 1, "are not random" if not r else "may be unfilled"))
            rep.ok("secret keys are not masked away", masked <= 1, name, "%d bytes are constant zero" % masked)
    # key generation
    K = KEM(bits, kind)
    I = K.I
    pk, sk = I.root("pk", K.PK, "undef"), I.root("sk", K.SK, "undef")
    outs = K.run("crypto_kem_keypair", [Ptr(pk, 0), Ptr(sk, 0)])
    name = "crypto_kem_keypair" + K.ksuf
    rep.ok("draws exist", failing(rep, I, outs, name) > 1, name, "fewer than two draws can fail")
    for s, v in succeeded(outs):
        a = secret_bytes(rep, I, s, Ptr(sk, 0), K.MSG, "the rejection string", name)
        n = K.SKB if kind == "plain" else K.SKA
        b = set()
        for off, k, v in I.read_slices(s, Ptr(sk, K.MSG), n):
            for g, x in rets(v):
                labs = I.labels(x) or EMPTY
                if I.rng(x)[1] == 0:
                    continue
                r = {l for l in labs if l[0] == "rnd"}
                rep.ok("secret material is filled from the random source", bool(r) and "UNDEF" not in labs, name, "bytes %d..%d of the private key are not random" % (off, off + k - 1))
                b |= r
        rep.ok("rejection string and private key are independent draws", not a & b, name, "one draw is used for both")
        for what, p, k in (("secret key", Ptr(sk, 0), K.SK), ("public key", Ptr(pk, 0), K.PK)):
            und = [off for off, _, v in I.read_slices(s, p, k) if "UNDEF" in (I.labels(v) or EMPTY)]
            rep.ok("keys are complete", not und, name, "the %s is not filled from byte %s" % (what, und[:1]))
    # encapsulation
    K = KEM(bits, kind)
    I = K.I
    ct, ss = I.root("ct", K.CT, "undef"), I.root("ss", K.SS, "undef")
    pk = K.inp("pk", K.PK)
    outs = K.run("crypto_kem_enc", [Ptr(ct, 0), Ptr(ss, 0), Ptr(pk, 0)])
    name = "crypto_kem_enc" + K.ksuf
    rep.ok("draws exist", failing(rep, I, outs, name) > 0, name, "no draw can fail: the random source is not consulted")
    for s, v in succeeded(outs):
        for what, p, k in (("ciphertext", Ptr(ct, 0), K.CT), ("shared key", Ptr(ss, 0), K.SS)):
            for off, q, v in I.read_slices(s, p, k):
                labs = I.labels(v) or EMPTY
                rep.ok("ciphertext and key depend on a delivered message", any(l[0] == "rnd" for l in labs) and "UNDEF" not in labs, name,
                       "bytes %d..%d of the %s %s" % (off, off + q - 1, what, "may be unfilled" if "UNDEF" in labs else "do not depend on the random message"))
        # the message itself: what the final hash starts with
        fin = [e for e in K.events if e[0] == "shake" and e[6] == K.MSG + K.CT]
        if rep.ok("the key is derived by one hash of message and ciphertext", bool(fin), name, "no hash over message and ciphertext"):
            for e in fin:
                for off, q, v in e[2]:
                    if off < K.MSG:
                        labs = I.labels(v) or EMPTY
                        rep.ok("the message is a complete draw", bool({l for l in labs if l[0] == "rnd"}) and "UNDEF" not in labs, name, "bytes %d..%d of the message are not random" % (off, off + q - 1))
    rep.count("IR instructions interpreted (KEM)", I.stats["instructions"])


# ---------------------------------------------------------------------------------------------- decapsulation (C09)
def parts(I, t):
    k = I.T.rev[t]
    if k[0] == "cat":
        return [(k[q], k[q + 1]) for q in range(1, len(k), 2)]
    return None


def isinput(I, ps, name, off):
    """do the parts spell the input bytes name[off:...] in order?"""
    for n, t in ps:
        if I.T.rev[t] != ("in", name, off, n):
            return False
        off += n
    return True


def split(I, ps, n):
    """first n bytes and the rest"""
    a, b, at = [], [], 0
    for k, t in ps:
        if at >= n:
            b.append((k, t))
        elif at + k <= n:
            a.append((k, t))
        else:
            a.append((n - at, I.ext_term(t, 0, n - at, k)))
            b.append((k - (n - at), I.ext_term(t, n - at, k - (n - at), k)))
        at += k
    return a, b


def dec(rep, bits, kind, failvals=(1,)):
    n = [0, 0]
    name = "crypto_kem_dec (P%d %s)" % (bits, kind)
    for verdict, fv in [(True, 0)] + [(False, f) for f in failvals]:
        m, r = dec1(rep, bits, kind, verdict, fv)
        n[0] += m
        n[1] += r
    rep.ok("both outcomes of decapsulation exist", min(n) > 0, name, "%d accepting and %d rejecting outcomes" % tuple(n))


def dec1(rep, bits, kind, verdict, fv):
    """one abstract run per verdict on the received public key (None: not validated)"""
    K = KEM(bits, kind)
    if K.missing:
        raise AnalysisError("boundary functions not found: %s" % K.missing)
    K.failval, K.verdict = fv, verdict
    I = K.I
    T = I.T
    ss = I.root("ss", K.SS, "undef")
    nsk = K.SKB if kind == "plain" else K.SKA
    npk = K.PK if kind == "plain" else K.CHUNK
    sk = K.inp("sk", K.SK, (K.MSG, K.MSG + nsk, K.MSG + nsk + K.PK))
    ct = K.inp("ct", K.CT, (npk,))
    outs = K.run("crypto_kem_dec", [Ptr(ss, 0), Ptr(ct, 0), Ptr(sk, 0)])
    name = "crypto_kem_dec" + K.ksuf
    rep.count("IR instructions interpreted (KEM)", I.stats["instructions"])
    pv = I.prover()
    akey = T("esaB" if kind == "plain" else "esaA", T("in", "sk", K.MSG, nsk), T("in", "ct", 0, npk))
    agree = I.A("agree", akey)
    msg = rej = 0
    for s, v in outs:
        base = pv.base(set(s.facts))
        if base is None:
            continue
        for g, x in rets(v):
            if pv.extend(base, list(g)) is None:
                continue
            rep.ok("decapsulation never reports validity", x == 0, name, "returns %r" % (x,))
        v = I.read(s, Ptr(ss, 0), K.SS)
        for g, x in rets(v):
            e = pv.extend(base, list(g))
            if e is None:
                continue
            t = I.term(x) if type(x) is AV else None
            k = T.rev[t] if t is not None else None
            if not rep.ok("the key is a hash", k is not None and k[0] == "shake" and k[1] == K.SS, name, "the key is not one complete hash output"):
                continue
            ps = parts(I, k[3]) or [(k[2], k[3])]
            a, b = split(I, ps, K.MSG)
            rep.ok("the key hashes the whole ciphertext", k[2] == K.MSG + K.CT and isinput(I, b, "ct", 0), name, "the final hash input is not a message followed by the complete ciphertext")
            if isinput(I, a, "sk", 0):
                rej += 1
                continue
            # recovered message: byte by byte ciphertext tail xor mask
            okm = True
            for q, (n, tt) in enumerate(unit(I, a)):
                if not xorof(I, tt, ("in", "ct", npk + q, 1)):
                    okm = False
            if not rep.ok("the key hashes either the rejection string or the recovered message", okm, name,
                          "the hashed message is neither the complete rejection string nor the recovered message: %s" % T.show(a[0][1])[:200]):
                continue
            msg += 1
            rep.ok("an invalid public key leads to rejection", pv.entails(base, list(g), [agree]), name, "the recovered message is hashed although the ciphertext's public key may be invalid")
            if kind == "plain":
                # some re-encryption output equals the complete public part of the ciphertext
                ok = False
                for c0, at in ekg_outputs(K):
                    l = I.eqatom(c0, T("in", "ct", 0, npk))
                    if type(l) is int and pv.entails(base, list(g), [l]):
                        ok = True
                rep.ok("the recovered message is used only if re-encryption reproduced the ciphertext", ok, name,
                       "the recovered message is hashed without every byte of the re-encrypted public key having been compared")
            else:
                ok = any(pv.entails(base, list(g), [l]) for l in ctvalid(K, npk, nsk))
                rep.ok("the recovered message is used only if re-encryption reproduced the ciphertext", ok, name,
                       "the recovered message is hashed without the ciphertext check having succeeded on this ciphertext")
    for at, key, sike, pk in K.agreements:
        rep.ok("decapsulation asks for validation of the received key", sike == 1, at, "the agreement is called without validation of the received public key")
    return msg, rej


def unit(I, ps):
    out = []
    for n, t in ps:
        for q in range(n):
            out.append((1, t if n == 1 else I.ext_term(t, q, 1, n)))
    return out


def xorof(I, t, leaf):
    """the byte `leaf` xored with a byte of a hash output"""
    k = I.T.rev[t]
    if k[0] != "xor" or len(k[1]) != 2 or I.T(*leaf) not in k[1]:
        return False
    (o,) = k[1] - {I.T(*leaf)}
    o = I.T.rev[o]
    while o[0] == "ext":
        o = I.T.rev[o[1]]
    return o[0] == "shake"


def ekg_outputs(K):
    """outputs of the re-encryption whose secret is a hash of the recovered message and the own public key"""
    I = K.I
    T = I.T
    out = []
    for t in range(len(T.rev)):
        k = T.rev[t]
        if k and k[0] == "o" and k[1] == 0 and T.rev[k[2]][0] == "ekgA":
            out.append((t, k[2]))
    return out


def ctvalid(K, npk, nsk):
    I = K.I
    T = I.T
    out = []
    want_ct = T("in", "ct", 0, npk)
    for l in range(1, len(I.A.rev)):
        k = I.A.rev[l]
        if k and k[0] == "ctvalid" and k[2] == want_ct and T.rev[k[3]] == ("in", "sk", K.MSG + nsk + K.PK, K.FP2):
            out.append(l)
    return out


# ---------------------------------------------------------------------------------------------- helpers of the comparison
def helpers(rep, bits, kind):
    """ct_compare and ct_cmov: footprint of the result, and the values on constants"""
    mods = build.lib(bits, kind)
    I = ai.Interp(mods, dict(prims.libc()), hooks=Hooks())
    m = macros.lib(bits, kind)

    def const(name, bs):
        o = I.root(name, max(1, len(bs)), "undef")
        return o, bs

    def fill(st, o, bs):
        for k, v in enumerate(bs):
            I.write(st, Ptr(o, k), 1, v)
    for fn in ("ct_compare", "ct_cmov"):
        if fn not in mods[0].funcs:
            raise AnalysisError(fn + " not found")
    name = "fpx.c ct_compare (P%d %s)" % (bits, kind)
    n = m["CRYPTO_PUBLICKEYBYTES"]
    for ln in (1, 2, 7, 8, 9, 16, n):
        a = I.root("a", ln, lambda I_, o, off, k: I_.input("a", off, k, frozenset(("a", q) for q in range(off, off + k))))
        b = I.root("b", ln, lambda I_, o, off, k: I_.input("b", off, k, frozenset(("b", q) for q in range(off, off + k))))
        lab = EMPTY
        for s, v in I.run("ct_compare", [Ptr(a, 0), Ptr(b, 0), ln], State()):
            lab = lab | (I.labels(v) or EMPTY) | frozenset(x for g in s.ghost for x in (g[1:] if g[0] == "brlab" else ()))
        # the result depends on both strings in every position; control dependence is covered by the constant runs below
        miss = [q for q in range(ln) if ("a", q) not in lab or ("b", q) not in lab]
        if miss and not lab:
            rep.count("ct_compare decided by constants only")
        elif ln > 8 or True:
            rep.ok("the comparison reads every byte of both strings", not miss, name, "length %d: bytes %s do not influence the result" % (ln, miss[:5]))
    for ln in (1, 2, 3, 8, 9, 17):
        poss = sorted({0, ln // 2, ln - 1})
        for pos in poss:
            for d in range(256):
                if ln > 2 and d not in (0, 1, 2, 4, 8, 16, 32, 64, 128, 255, 254, 127):
                    continue
                x = [(37 * k + 11) & 255 for k in range(ln)]
                y = list(x)
                y[pos] ^= d
                st = State()
                a, b = I.root("a", ln, "undef"), I.root("b", ln, "undef")
                fill(st, a, x)
                fill(st, b, y)
                r = [v for s, v in I.run("ct_compare", [Ptr(a, 0), Ptr(b, 0), ln], st)]
                want = 0 if d == 0 else 255
                rep.ok("the comparison yields 0 for equal and -1 for different strings", len(r) == 1 and r[0] == want, name,
                       "length %d, difference %d at position %d: result %r" % (ln, d, pos, r))
    name = "fpx.c ct_cmov (P%d %s)" % (bits, kind)
    for ln in (1, 2, 8, 9, m["MSG_BYTES"]):
        for sel in (0, 255):
            st = State()
            r, a = I.root("r", ln, "undef"), I.root("a", ln, "undef")
            old, new = [(31 * k + 5) & 255 for k in range(ln)], [(201 - 13 * k) & 255 for k in range(ln)]
            fill(st, r, old)
            fill(st, a, new)
            outs = I.run("ct_cmov", [Ptr(r, 0), Ptr(a, 0), ln, sel], st)
            want = new if sel else old
            got = [[I.read(s, Ptr(r, k), 1) for k in range(ln)] for s, _ in outs]
            rep.ok("the conditional move replaces all bytes or none", got == [want], name, "length %d, selector %d: wrong result" % (ln, sel - 256 if sel else 0))
    rep.count("helper evaluations in the constant domain", 1)


def ctcheck(rep, bits):
    """validate_ciphertext (compressed): 0 only if the two points agree, -1 otherwise"""
    pr = prims.P(bits)
    mods = build.lib(bits, "compressed")
    m = macros.lib(bits, "compressed")
    pp = {}
    for d in (prims.field(pr), prims.curve(pr), prims.libc()):
        pp.update(d)
    fe = pr.fe
    no = (m["NBITS_ORDER"] + 63) // 64
    PT, F2 = [fe] * 4, [fe] * 2
    pp["LADDER3PT"] = uf("ladder3", [(0, F2), (1, F2), (2, F2), (3, [8 * no]), (6, F2)], [(5, PT)])
    pp["Ladder"] = uf("ladder", [(0, PT), (1, [8 * no]), (2, F2)], [(4, PT)])
    pp["cmp_f2elm"] = cmp2(pr)
    for n in ("LADDER3PT", "Ladder", "validate_ciphertext", "cmp_f2elm"):
        if n not in mods[0].funcs:
            raise AnalysisError(n + " not found")
    hooks = Hooks()
    I = ai.Interp(mods, pp, hooks=hooks)
    T = I.T
    SKA, SKB, FP2, CH = m["SECRETKEY_A_BYTES"], m["SECRETKEY_B_BYTES"], m["FP2_ENCODED_BYTES"], m["PARTIALLY_COMPRESSED_CHUNK_CT"]
    mk = lambda nm, n: I.root(nm, n, lambda I_, o, off, k: I_.input(nm, off, k, frozenset([nm])))
    e, c, x, t = mk("esk", SKB), mk("ct", CH), mk("xKA", FP2), mk("tphi", 2 * FP2 + SKA)
    outs = I.run("validate_ciphertext", [Ptr(e, 0), Ptr(c, 0), Ptr(x, 0), Ptr(t, 0)], State())
    name = "sidh_compressed.c validate_ciphertext (P%d)" % bits
    rep.count("IR instructions interpreted (KEM)", I.stats["instructions"])
    pv = I.prover()
    # the two sides: (X of the re-encrypted point) * (Z of the transmitted point) and vice versa
    S = [T("dec", T("in", "tphi", h * pr.fb, pr.fb)) for h in range(4)]
    pairs = []
    lad = [k for k in range(len(T.rev)) if T.rev[k] and T.rev[k][0] == "ladder"]
    for l in lad:
        R = [T("o", i, l) for i in range(4)]
        a = [T("fp2mul", *(u + v)) for u, v in ((R[:2], S[2:]), (S[2:], R[:2]))]
        b = [T("fp2mul", *(u + v)) for u, v in ((R[2:], S[:2]), (S[:2], R[2:]))]
        pairs += [(p, q, l) for p in a for q in b]
    zero = 0
    for s, v in outs:
        base = pv.base(set(s.facts))
        if base is None:
            continue
        for g, val in rets(v):
            if pv.extend(base, list(g)) is None:
                continue
            lo, hi = I.rng(val)
            rep.ok("the ciphertext check yields 0 or -1", type(val) is int and val in (0, 255) or (lo == hi and lo in (0, 255)), name, "may return %s" % (val if type(val) is int else "%d..%d" % (lo, hi)))
            if lo == 0:
                zero += 1
                ok = False
                for p, q, l in pairs:
                    lits = [I.eqatom(corr(I, T("o", h, p)), corr(I, T("o", h, q))) for h in range(2)]
                    if all(x is True or type(x) is int and eqfull(I, pv, base, g, corr(I, T("o", h, p)), corr(I, T("o", h, q)), fe) for h, x in enumerate(lits)):
                        ok = True
                rep.ok("the ciphertext check succeeds only if the re-encrypted point equals the transmitted one", ok, name,
                       "returns 0 without both components of the two points having been compared completely")
    rep.ok("the ciphertext check can succeed", zero > 0, name, "never returns 0")
    for l in lad:
        k = T.rev[l]
        src = deps(I, l)
        rep.ok("the re-encrypted point depends on the ephemeral key and the own point", ("esk" in src) and ("xKA" in src), name, "the compared point does not depend on %s" % ("esk" if "esk" not in src else "xKA"))


def cmp2(pr):
    """cmp_f2elm: 0 if the reduced elements are equal, -1 otherwise (its body is decided in `cmpbody`)"""
    def prim(I, st, args, ins):
        x, y = readn(I, st, args[0], [pr.fe] * 2, ins), readn(I, st, args[1], [pr.fe] * 2, ins)
        lits = set()
        for a, b in zip(x, y):
            l = I.eqatom(corr(I, prims.tmof(I, a)), corr(I, prims.tmof(I, b)))
            if l is False:
                return 255
            if l is not True:
                lits.add(l)
        if not lits:
            return 0
        g, h = prims.guard_pair(I, frozenset(lits))
        return G(((g, 0), (h, 255)))
    return prim


def cmpbody(rep, bits):
    """cmp_f2elm in the constant domain: every single-bit difference in every word, and both representatives of a value"""
    pr = prims.P(bits)
    mods = build.lib(bits, "compressed")
    pp = dict(prims.libc())
    pp.update(prims.field(pr))
    if "cmp_f2elm" not in mods[0].funcs:
        raise AnalysisError("cmp_f2elm not found")
    I = ai.Interp(mods, pp, hooks=Hooks())
    name = "fpx.c cmp_f2elm (P%d)" % bits
    fe, nw = pr.fe, pr.nw

    def call(x, y):
        st = State()
        ox, oy = I.root("x", 2 * fe, "undef"), I.root("y", 2 * fe, "undef")
        for h in range(2):
            I.write(st, Ptr(ox, h * fe), fe, x[h])
            I.write(st, Ptr(oy, h * fe), fe, y[h])
        r = [v for s, v in I.run("cmp_f2elm", [Ptr(ox, 0), Ptr(oy, 0)], st)]
        return r[0] if len(r) == 1 and type(r[0]) is int else r
    b = [(0x123456789abcdef0fedcba987654321 * (pr.p >> 130)) % pr.p, (0x55aa1234567 * (pr.p >> 45)) % pr.p]
    rep.ok("equal elements compare equal", call(b, b) == 0, name, "equal elements: %r" % call(b, b))
    for h in range(2):
        for q in range(bits):
            y = list(b)
            y[h] ^= 1 << q
            if y[h] >= pr.p:
                continue
            r = call(b, y)
            rep.ok("different elements compare different", r == 255, name, "a difference in bit %d of component %d gives %r" % (q, h, r))
        y = list(b)
        y[h] += pr.p
        rep.ok("both representatives of an element compare equal", call(b, y) == 0 and call(y, b) == 0, name, "value and value+p in component %d" % h)
        z = [0, 0]
        y = [0, 0]
        y[h] = pr.p
        rep.ok("both representatives of an element compare equal", call(z, y) == 0, name, "0 and p in component %d" % h)


def corr(I, t):
    return I.T("o", 0, I.T("corr", t))


def eqfull(I, pv, base, g, ta, tb, n):
    """all words of two terms were shown equal"""
    l = I.eqatom(ta, tb)
    if type(l) is int and pv.entails(base, list(g), [l]):
        return True
    for w in range(0, n, 8):
        l = I.eqatom(I.ext_term(ta, w, 8, n), I.ext_term(tb, w, 8, n))
        if l is True:
            continue
        if type(l) is not int or not pv.entails(base, list(g), [l]):
            return False
    return True


def deps(I, t):
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        k = I.T.rev[x]
        if k[0] == "in":
            out.add(k[1])
            continue
        if k[0] == "c":
            continue
        for y in k[1:]:
            if type(y) is int and y < len(I.T.rev):
                todo.append(y)
            elif type(y) is frozenset:
                todo += [z for z in y if type(z) is int]
    return out


def agreeA(rep, bits):
    """EphemeralSecretAgreement_A_extended (compressed): a refused public key is reported"""
    pr = prims.P(bits)
    mods = build.lib(bits, "compressed")
    m = macros.lib(bits, "compressed")
    SKA, FP2, CH = m["SECRETKEY_A_BYTES"], m["FP2_ENCODED_BYTES"], m["PARTIALLY_COMPRESSED_CHUNK_CT"]
    fe = pr.fe
    for n in ("PKBDecompression_extended", "EphemeralSecretAgreement_A_extended", "is_sqr_fp2"):
        if n not in mods[0].funcs:
            raise AnalysisError(n + " not found")
    vals = set()
    no = (m["NBITS_ORDER"] + 63) // 64
    for sq in (0, 1):
        pp = {}
        for d in (prims.field(pr), prims.curve(pr), prims.libc()):
            pp.update(d)
        pp["is_sqr_fp2"] = lambda I, st, args, ins: log.append(readn(I, st, args[0], [fe] * 2, ins)) or sq
        for nm in ("Ladder3pt_dual",):
            pp[nm] = uf(nm, [(0, [fe] * 12), (1, [8 * no]), (4, [fe] * 2)], [(3, [fe] * 4)])
        pp["BuildEntangledXonly_Decomp"] = uf("bex", [(0, [fe] * 2)], [(1, [fe] * 12)])
        pp["xTPLe_fast"] = uf("tplf", [(0, [fe] * 4), (2, [fe] * 2)], [(1, [fe] * 4)])
        pp["inv_mod_orderA"] = uf("invA", [(0, [8 * no])], [(1, [8 * no])])
        pp["multiply"] = lambda I, st, args, ins: uf("mul", [(0, [8 * no]), (1, [8 * no])], [(2, [16 * no])])(I, st, args, ins)
        log = []
        I = ai.Interp(mods, pp, hooks=Hooks())
        mk = lambda nm, n: I.root(nm, n, lambda I_, o, off, k: I_.input(nm, off, k, frozenset([nm])))
        sk, ct = mk("sk", SKA), mk("ct", CH)
        out = I.root("out", 3 * FP2 + SKA, "undef")
        outs = I.run("EphemeralSecretAgreement_A_extended", [Ptr(sk, 0), Ptr(ct, 0), Ptr(out, 0), 1], State())
        name = "sidh_compressed.c EphemeralSecretAgreement_A_extended (P%d)" % bits
        for s, v in outs:
            for g, x in rets(v):
                lo, hi = I.rng(x)
                if sq == 0:
                    rep.ok("a ciphertext curve without the required torsion is refused", lo > 0, name, "returns success although the curve test failed")
                    vals.add(x if type(x) is int else 1)
                else:
                    rep.ok("a suitable ciphertext curve is accepted", hi == 0, name, "returns %r" % (x,))
        rep.ok("the test is applied to the ciphertext's curve", bool(log), name, "no square test is made")
        A = [I.T("dec", I.T("in", "ct", 4 * m["ORDER_A_ENCODED_BYTES"] + h * pr.fb, pr.fb)) for h in range(2)]
        for l in log:
            ts = set()
            for x in l:
                ts |= deps(I, I.term(x)) if type(x) is AV and x.tm is not None else set()
            rep.ok("the test is applied to the ciphertext's curve", ts == {"ct"}, name, "the value tested depends on %s" % sorted(ts))
        rep.count("IR instructions interpreted (KEM)", I.stats["instructions"])
    return vals


# ---------------------------------------------------------------------------------------------- validation of the peer key (C10)
class Reached(Exception):
    pass


def validation(rep, bits):
    """crypto_kem_dec in the domain of point orders: which public keys reach the ladder"""
    from .orders import Dom, Gen
    pr = prims.P(bits)
    m = macros.lib(bits, "plain")
    fe, eB, eA = pr.fe, pr.eB, pr.eA
    name = "crypto_kem_dec_SIKEp%d" % bits
    mods = build.lib(bits, "plain")
    need = ["EphemeralSecretAgreement_B_extended", "LADDER3PT", "xTPL_fast", "xTPLe_fast", "fp2_decode", "get_A", "is_sqr_fp2"]
    miss = [n for n in need if n not in mods[0].funcs]
    if miss:
        raise AnalysisError("boundary functions not found: %s" % miss)
    MSG, PK, CT, SK, SS, FP2, SKB, SKA = (m[k] for k in ("MSG_BYTES", "CRYPTO_PUBLICKEYBYTES", "CRYPTO_CIPHERTEXTBYTES", "CRYPTO_SECRETKEYBYTES",
                                                       "CRYPTO_BYTES", "FP2_ENCODED_BYTES", "SECRETKEY_B_BYTES", "SECRETKEY_A_BYTES"))
    orders = sorted({0, 1, 2, eB - 2, eB - 1, eB})
    parts2 = ((0, False), (1, False), (2, False), (0, True))
    cases = []
    for b1 in orders:
        for b2 in orders:
            for same in ((0, 1) if b1 and b2 else (0,)):
                cases.append(((0, b1, False), (0, b2, False), same, True))
    for a, o in parts2[1:]:
        for b in (0, 1, eB - 1, eB):
            cases.append(((a, b, o), (0, eB, False), 0, True))
            cases.append(((0, eB, False), (a, b, o), 0, True))
            cases.append(((a, b, o), (a, b, o), 0, True))
    if rep.thorough:
        for b1 in range(eB + 1):
            cases.append(((0, b1, False), (0, eB, False), 0, True))
            cases.append(((0, eB, False), (0, b1, False), 0, True))
    if bits == 610:
        cases += [((0, eB, False), (0, eB, False), 0, q) for q in ((0, 1), (1, 0), (0, 0))]
    fails = set()
    for P, Q, same, sq in cases:
        for mode in (0, 1, 2):
            good = P == (0, eB, False) and Q == (0, eB, False) and not same and sq is True
            if mode and not (good or P[1] >= eB - 1):
                continue
            r = vcase(rep, bits, P, Q, same, sq, mode, good, name, (MSG, PK, CT, SK, SS, FP2, SKB, SKA))
            fails |= r
    return fails


def vcase(rep, bits, P, Q, same, sq, mode, good, name, sizes):
    from .orders import Dom, Gen
    MSG, PK, CT, SK, SS, FP2, SKB, SKA = sizes
    pr = prims.P(bits)
    fe, eB = pr.fe, pr.eB
    reached, events, sqs, rv = [], [], [], set()

    def extra(D):
        d = dict(prims.hashing(events))
        I_ = lambda: D.I

        def decode(I, st, args, ins):
            p = I.prune(args[0], st.facts)
            w = p.off // FP2 if type(p) is Ptr and p.obj is D.ct and p.off % FP2 == 0 else None
            if w is None or w > 2:
                return D.put2(st, args[1], D.leaf2("decoded", I.T.fresh("d")), ins)
            if w == 2:
                return D.put2(st, args[1], D.leaf2("xR"), ins)
            e = D.pts[w]
            if D.iszero(e):
                return D.put2(st, args[1], D.leaf2("xO", w), ins)    # no affine x: cannot occur as an encoding
            t = D.point(e, 0)
            D.put2(st, args[1], t[:2], ins)
        d["fp2_decode"] = decode
        f = prims.field(pr)
        d["mp_add%d_asm" % bits] = f["fpadd%d" % bits]
        for q in ("p2", "p4"):
            d["mp_sub%d_%s" % (bits, q)] = f["fpsub%d" % bits]

        def mpadd(I, st, args, ins):
            a, b = readn(I, st, args[0], [fe], ins)[0], readn(I, st, args[1], [fe], ins)[0]
            if type(a) is int and type(b) is int:
                I.write(st, args[2], fe, (a + b) & ((1 << 8 * fe) - 1), ins)
                return 0
            f["fpadd%d" % bits](I, st, args, ins)
            return I.unknown(32)
        d["mp_add"] = mpadd

        def getA(I, st, args, ins):
            xs = [D.poly2(D.get2(st, a, ins)) for a in args[:3]]
            want = []
            for w in range(2):
                e = D.pts[w]
                t = D.point(e, 0)[:2] if not D.iszero(e) else D.leaf2("xO", w)
                want.append(D.poly2(t))
            want.append(D.poly2(D.leaf2("xR")))
            if xs != want:
                D.problems.append(("garbage", I.where(ins), "the curve is not computed from the three transmitted x-coordinates"))
                return D.put2(st, args[3], D.leaf2("badA"), ins)
            D.put2(st, args[3], D.A, ins)
        d["get_A"] = getA

        def tplfast(esrc):
            def prim(I, st, args, ins):
                n = 1 if esrc is None else I.prune(args[esrc], st.facts)
                if type(n) is not int:
                    raise AnalysisError("number of triplings at " + I.where(ins))
                if n >> 31:
                    n = 0
                a2 = D.poly2(D.get2(st, args[2], ins))
                A = D.R.add2(a2, a2)
                c = D.findcurve(D.R.add2(A, D.const2(2)), D.const2(4))
                if c is None:
                    return D.garbage(st, args[1], "curve constant does not belong to the received curve", ins)
                e = D.getpt(st, args[0], ins, c)
                if e == ("O",):
                    for i in range(4):
                        I.write(st, padd(I, args[1], i * fe), fe, D.av(D.zeroterm()) if i > 1 else D.av(D.leaf("O", D.newlam(), i)), ins)
                    return None
                if e is None:
                    return D.garbage(st, args[1], "the point tripled is not one of the received points", ins)
                D.putpt(st, args[1], (e[0], e[1], e[2] + n, c), ins)
            return prim
        d["xTPL_fast"], d["xTPLe_fast"] = tplfast(None), tplfast(3)

        def sqr(I, st, args, ins):
            v = D.poly2(D.get2(st, args[0], ins))
            A = D.poly2(D.A)
            two = D.const2(2)
            if v == D.R.add2(A, two):
                w = 0
            elif v == D.R.add2(A, two, -1):
                w = 1
            else:
                w = None
            sqs.append(w)
            D.put2(st, padd(I, args[1], 0), D.leaf2("sq", I.T.fresh("s")), ins) if False else I.write(st, args[1], fe, D.av(I.T.fresh("sq")), ins)
            if w is None or sq is True:
                return 1
            return sq[w]
        d["is_sqr_fp2"] = sqr

        def ladder(I, st, args, ins):
            lab = I.labels(I.read(st, args[3], 8, ins)) or EMPTY
            if ("sk",) in lab:
                reached.append(I.where(ins))
                # what follows is irrelevant here
                return []
            for i in range(4):
                I.write(st, padd(I, args[5], i * fe), fe, D.av(I.T.fresh("lad")), ins)
            return None
        d["LADDER3PT"] = ladder
        d["EphemeralKeyGeneration_A_SIDHp%d" % bits] = lambda I, st, args, ins: uf("ekgA", [(0, [SKA])], [(1, [PK])])(I, st, args, ins) or 0
        return d
    D = Dom(bits, kind="plain", extra=extra)
    D.mode = mode
    I = D.I
    st = State()
    A = D.A = D.leaf2("A0")
    one = [I.T("c", D.R.R), I.T("c", 0)]
    c = D.curve_AC(A, one)
    gp = Gen(c, P[0], P[1], P[2], 1, 0, "P")
    gq = Gen(c, Q[0], Q[1], Q[2], 2, 0 if same else 1, "Q")
    D.pts = [(gp, 0, 0, c), (gq, 0, 0, c)]
    if D.iszero(D.pts[0]) or D.iszero(D.pts[1]):
        return set()            # the neutral element has no encoding
    ct = D.ct = I.root("ct", CT, lambda I_, o, off, n: I_.input("ct", off, n, EMPTY))
    sk = I.root("sk", SK, lambda I_, o, off, n: I_.input("sk", off, n, frozenset([("sk",)]) if off >= MSG and off < MSG + SKB else EMPTY))
    ss = I.root("ss", SS, "undef")
    outs = I.run("crypto_kem_dec_SIKEp%d" % bits, [Ptr(ss, 0), Ptr(ct, 0), Ptr(sk, 0)], st)
    rep.count("public keys in the order domain")
    desc = "P of order 2^%d*3^%d%s, Q of order 2^%d*3^%d%s%s%s" % (P[0], P[1], "*more" if P[2] else "", Q[0], Q[1], "*more" if Q[2] else "",
                                                                 ", dependent" if same else "", "" if sq is True else ", curve of the wrong kind")
    if good:
        rep.ok("a valid public key is accepted", bool(reached), name, "a valid key does not reach the computation with the secret")
        bad = [p for p in D.problems if p[0] == "garbage"]
        rep.ok("validation works on the received points and curve", not bad, bad[0][1] if bad else name, bad[0][2] if bad else "")
        return rv
    rep.ok("an invalid public key never meets the secret key", not reached, reached[0] if reached else name, "the secret key is applied to an invalid public key: " + desc)
    for s, v in outs:
        x = I.read(s, Ptr(ss, 0), SS)
        for g, y in rets(x):
            t = I.term(y) if type(y) is AV else None
            k = I.T.rev[t] if t is not None else None
            ok = k is not None and k[0] == "shake" and k[1] == SS and k[2] == MSG + CT
            if ok:
                a, b = split(I, parts(I, k[3]) or [(k[2], k[3])], MSG)
                ok = isinput(I, a, "sk", 0) and isinput(I, b, "ct", 0)
            rep.ok("an invalid public key leads to the rejection key", ok, name, "the key for an invalid public key is not the hash of the rejection string and the ciphertext: " + desc)
    return rv


if __name__ == "__main__":
    import sys, time
    from . import report
    sys.setrecursionlimit(20000)
    for b in [int(x) for x in sys.argv[1:]] or [434]:
        for f, a in ((helpers, (b, "plain")), (ctcheck, (b,)), (cmpbody, (b,)), (agreeA, (b,)), (validation, (b,))):
            t = time.time()
            rep = report.Report("X")
            rep.thorough = False
            try:
                print(f.__name__, f(rep, *a), end=" ")
            except Exception:
                import traceback
                traceback.print_exc()
            print("%.1f s" % (time.time() - t))
            for k in rep.counts.items():
                print("  ", k)
            for v in rep.viol[:6]:
                print("   V", v)
