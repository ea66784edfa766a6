"""Models of C streams with a typestate: what was written, what failed, what was read."""
import re
from .ai import AV, G, Ptr, Fn, EMPTY, AnalysisError, Obj, M64, GRef
from .prims import padd, isnull

EOF32 = 0xffffffff


class CType:
    """table behind isxdigit & co: the class word of character c is the value number ctype(c)"""
    def __call__(self, I, o, off, n):
        return AV(0, 0xffff, EMPTY, I.T("ctype", I.T("c", off)))

    def sym(self, I, st, o, off, n):
        t = off.tm if type(off) is AV else None
        return AV(0, 0xffff, I.labels(off), I.T("ctype", t) if t is not None else I.T.fresh("ctype"))


def cstr(I, st, p, ins):
    """constant C string"""
    p = I.prune(p, st.facts)
    if type(p) is not Ptr or type(p.off) is not int:
        return None
    out = []
    k = 0
    while p.obj.size is None or p.off + k < p.obj.size:
        v = I.read(st, Ptr(p.obj, p.off + k), 1, ins)
        if type(v) is not int:
            return None
        if v == 0:
            return bytes(out).decode("latin1")
        out.append(v)
        k += 1
    return None


def items(fmt):
    """format string -> list of ('lit', char) and ('conv', flags, width, length, letter)"""
    out = []
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if c != "%":
            out.append(("lit", c))
            i += 1
            continue
        m = re.match(r"%([-+ #0*]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%\[])", fmt[i:])
        if not m:
            return None
        if m.group(5) == "%":
            out.append(("lit", "%"))
        else:
            out.append(("conv", m.group(1), m.group(2), m.group(4) or "", m.group(5)))
        i += m.end()
    return out


class Streams:
    """hooks.ev receives (kind, stream, payload, facts, ins)"""

    def __init__(self, events, out=("stdout",), fork=True):
        self.ev = events
        self.out = set(out)
        self.files = {}
        self.nchar = 0
        self.fork = fork

    def file(self, I, name):
        o = self.files.get(name)
        if o is None:
            o = self.files[name] = Obj("FILE:" + name, None, "input", "undef")
        return Ptr(o, 0)

    def name(self, I, st, p):
        p = I.prune(p, st.facts)
        if type(p) is Ptr and p.obj.name.startswith("FILE:"):
            return p.obj.name[5:]
        return None

    def setup(self, I, st, mod):
        """the standard stream variables"""
        for m in I.mods:
            for n in ("stdin", "stdout", "stderr"):
                if n in m.globals:
                    I.write(st, I.gref(GRef(n, 0), m), 8, self.file(I, n))

    # -- typestate of output
    def wrote(self, I, st, f, ins, good, bad, payload, lits=()):
        """fork: the write is accepted / fails"""
        self.ev.append(("write", f, payload, st.facts, ins))
        if f not in self.out:
            if type(good) is int:
                return AV(0, EOF32, EMPTY, I.T.fresh("io"))
            return good
        s2 = st.fork()
        if not any(g[0] == "dirty" for g in st.ghost):
            st.ghost = st.ghost + (("dirty",),)
        if not any(g[0] == "werr" for g in s2.ghost):
            s2.ghost = s2.ghost + (("werr", I.where(ins)),)
        return [(st, good), (s2, bad)]

    def prims(self):
        d = {}
        S = self

        def fputc(I, st, args, ins, fi=1):
            c = I.prune(args[0], st.facts)
            v = c & 0xff if type(c) is int else AV(0, 255, I.labels(c), I.term(c))
            return S.wrote(I, st, S.name(I, st, args[fi]) if fi is not None else "stdout", ins, v, EOF32, [("chr", v)])
        d["fputc"] = d["putc"] = d["_IO_putc"] = fputc
        d["putchar"] = lambda I, st, args, ins: fputc(I, st, args, ins, None)

        def fputs(I, st, args, ins, fi=1):
            s = cstr(I, st, args[0], ins)
            f = S.name(I, st, args[fi]) if fi is not None else "stdout"
            pl = [("chr", ord(c)) for c in s] if s is not None else [("str", None)]
            if fi is None:
                pl = pl + [("chr", 10)]
            return S.wrote(I, st, f, ins, AV(1, 0x7fffffff, EMPTY, I.T.fresh("io")), EOF32, pl)
        d["fputs"] = fputs
        d["puts"] = lambda I, st, args, ins: fputs(I, st, args, ins, None)

        def fwrite(I, st, args, ins):
            n = I.prune(args[2], st.facts)
            f = S.name(I, st, args[3])
            good = n if type(n) is int else AV(0, M64)
            bad = AV(0, max(0, n - 1), EMPTY, I.T.fresh("io")) if type(n) is int else AV(0, M64)
            return S.wrote(I, st, f, ins, good, bad, [("raw", args[0], args[1], args[2])])
        d["fwrite"] = fwrite

        def fprintf(I, st, args, ins, fi=0):
            f = S.name(I, st, args[0]) if fi == 0 else "stdout"
            a = args[1:] if fi == 0 else args
            s = cstr(I, st, a[0], ins)
            it = items(s) if s is not None else None
            if it is None:
                return S.wrote(I, st, f, ins, AV(0, 0x7fffffff, EMPTY, I.T.fresh("io")), AV(0x80000000, EOF32, EMPTY, I.T.fresh("io")), [("fmt", s)])
            pl, n, k, exact = [], 0, 1, True
            for x in it:
                if x[0] == "lit":
                    pl.append(("chr", ord(x[1])))
                    n += 1
                    continue
                v = a[k] if k < len(a) else None
                k += 1
                _, fl, w, ln, c = x
                if c in "xX" and w == "2" and "0" in fl and (ln == "hh" or I.rng(v)[1] < 256):
                    pl.append(("hex", v))
                    n += 2
                elif c == "c":
                    pl.append(("chr", v))
                    n += 1
                else:
                    pl.append(("conv", x, v))
                    exact = False
            good = n if exact else AV(max(1, n), 0x7fffffff, EMPTY, I.T.fresh("io"))
            return S.wrote(I, st, f, ins, good, AV(0x80000000, EOF32, EMPTY, I.T.fresh("io")), pl)
        d["fprintf"] = fprintf
        d["printf"] = lambda I, st, args, ins: fprintf(I, st, args, ins, None)

        def fflush(I, st, args, ins, close=False):
            f = "stdout" if isnull(args[0]) else S.name(I, st, args[0])
            if f not in S.out:
                return 0
            S.ev.append(("flush", f, None, st.facts, ins))
            s2 = st.fork()
            st.ghost = tuple(g for g in st.ghost if g[0] != "dirty")
            if not any(g[0] == "werr" for g in s2.ghost):
                s2.ghost = s2.ghost + (("werr", I.where(ins)),)
            return [(st, 0), (s2, EOF32)]
        d["fflush"] = d["fclose"] = fflush

        def ferror(I, st, args, ins):
            f = S.name(I, st, args[0])
            if f not in S.out:
                return AV(0, 1, EMPTY, I.T.fresh("io"))
            return 1 if any(g[0] == "werr" for g in st.ghost) else 0
        d["ferror"] = ferror
        d["fileno"] = lambda I, st, args, ins: AV(0, 100, EMPTY, I.T.fresh("io"))

        def fsync(I, st, args, ins):
            return AV(0, EOF32, EMPTY, I.T.fresh("io"))
        d["fsync"] = fsync
        d["perror"] = lambda I, st, args, ins: None

        # -- input
        def short(I, st, ins):
            if not any(g[0] == "short" for g in st.ghost):
                st.ghost = st.ghost + (("short", I.where(ins)),)
            return st

        def chars(I, st, n, ins, what):
            S.nchar += 1
            t = I.T("chr", S.nchar)
            S.ev.append(("read", S.nchar, what, st.facts, ins))
            return AV(0, (1 << 8 * n) - 1, frozenset([("ch", S.nchar)]), t), S.nchar

        def fscanf(I, st, args, ins, fi=0):
            a = args[1:] if fi == 0 else args
            s = cstr(I, st, a[0], ins)
            it = items(s) if s is not None else None
            if it is None:
                raise AnalysisError("scanf format at " + I.where(ins))
            convs = [x for x in it if x[0] == "conv"]
            nl = [x for x in it if x[0] == "lit" and not x[1].isspace()]
            if not convs and not nl:
                S.ev.append(("skip", None, None, st.facts, ins))
                return AV(0, EOF32, EMPTY, I.T.fresh("scan"))      # only skips white space
            b = st.fork()
            alts = [0xffffffff] + list(range(len(convs)))
            v = alts[0]
            for x in alts[1:]:
                l = I.A.fresh("scan")
                v = I.mkG([(frozenset([l]), x)] + [(g | {-l}, y) for g, y in I._galts(v)])
            outs = [(short(I, b, ins), v)]
            q = 1
            skip = False
            for x in it:
                if x[0] == "lit":
                    if x[1].isspace():
                        skip = True
                    else:
                        S.ev.append(("readlit", None, x[1], st.facts, ins))
                    continue
                _, fl, w, ln, c = x
                if "*" in fl:
                    raise AnalysisError("scanf format at " + I.where(ins))
                if c == "c":
                    v, _ = chars(I, st, 1, ins, ("c", skip))
                    I.write(st, a[q], 1, v, ins)
                elif c in "dixXu":
                    n = {"hh": 1, "h": 2, "": 4, "l": 8, "ll": 8, "z": 8, "j": 8}[ln]
                    v, _ = chars(I, st, n, ins, ("num", c, w, ln, skip))
                    I.write(st, a[q], n, v, ins)
                else:
                    raise AnalysisError("scanf conversion %%%s at %s" % (c, I.where(ins)))
                q += 1
                skip = False
            return [(st, len(convs))] + outs
        d["fscanf"] = d["__isoc99_fscanf"] = d["__isoc23_fscanf"] = fscanf
        d["scanf"] = d["__isoc99_scanf"] = lambda I, st, args, ins: fscanf(I, st, args, ins, None)

        def fgetc(I, st, args, ins):
            b = st.fork()
            v, k = chars(I, st, 1, ins, ("c", False))
            return [(st, AV(0, 255, v.lab, v.tm)), (short(I, b, ins), EOF32)]
        d["fgetc"] = d["getc"] = d["_IO_getc"] = fgetc
        d["getchar"] = fgetc

        def ungetc(I, st, args, ins):
            raise AnalysisError("ungetc at " + I.where(ins))
        d["ungetc"] = ungetc
        d["feof"] = lambda I, st, args, ins: (1 if any(g[0] == "short" for g in st.ghost) else AV(0, 1, EMPTY, I.T.fresh("io")))

        def fread(I, st, args, ins):
            n, m = args[1], args[2]
            if type(n) is not int or type(m) is not int:
                raise AnalysisError("fread size at " + I.where(ins))
            b = st.fork()
            for k in range(n * m):
                v, _ = chars(I, st, 1, ins, ("c", False))
                I.write(st, padd(I, args[0], k), 1, v, ins)
            return [(st, m), (short(I, b, ins), AV(0, max(0, m - 1), EMPTY, I.T.fresh("io")))]
        d["fread"] = fread

        def strtol(I, st, args, ins):
            lab = EMPTY
            ts = []
            p = args[0]
            for k in range(24):
                if type(p) is not Ptr or (p.obj.size is not None and type(p.off) is int and p.off + k >= p.obj.size):
                    break
                v = I.read(st, padd(I, p, k), 1, ins)
                if type(v) is int and v == 0:
                    break
                lab = lab | I.labels(v)
                ts.append(I.term(v))
            if type(args[1]) is Ptr:
                # where the number ended: anywhere from the start of the text to its end
                v = p
                for k in range(1, len(ts) + 1):
                    l = I.A.fresh("strtolend")
                    v = I.mkG([(frozenset([l]), padd(I, p, k))] + [(g | {-l}, y) for g, y in I._galts(v)])
                I.write(st, args[1], 8, v, ins)
            t = I.T("strtol", *ts) if None not in ts else I.T.fresh("strtol")
            if ts and len(ts) <= 2 and args[2] == 16:
                return AV(0, 255, lab, t)
            return AV(0, M64, lab, t)
        d["strtol"] = d["strtoul"] = d["__isoc23_strtol"] = d["__isoc23_strtoul"] = strtol

        def ctype(I, st, args, ins):
            o = I.gobj.get("ctype")
            if o is None:
                t = I.gobj["ctype.tab"] = Obj("ctype.tab", None, "input", CType())
                o = I.gobj["ctype"] = Obj("ctype", 8, "input", lambda I_, ob, off, n: Ptr(t, 256))
            return Ptr(o, 0)
        d["__ctype_b_loc"] = ctype

        def isx(nm):
            def f(I, st, args, ins):
                t = I.term(args[0]) if type(args[0]) is not G else None
                return AV(0, EOF32, I.labels(args[0]), I.T(nm, t) if t is not None else I.T.fresh(nm))
            return f
        for nm in ("isxdigit", "isdigit", "isspace", "isalpha", "isalnum"):
            d[nm] = isx(nm)
        d["strcmp"] = d["strncmp"] = lambda I, st, args, ins: AV(0, EOF32, EMPTY, I.T.fresh("strcmp"))
        return d
