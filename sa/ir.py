"""Reader for the textual LLVM IR that clang 18 emits for /repo's sources (opaque pointers).

Only what clang -O0 (+ mem2reg) produces for C is supported; anything else raises IRError, which
a check turns into "no answer" (exit 2), never into a verdict.
"""
import re


class IRError(Exception):
    pass


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ("k", "size", "align", "n", "el", "offs")

    def __init__(self, k, size=0, align=1, n=0, el=None, offs=None):
        self.k, self.size, self.align, self.n, self.el, self.offs = k, size, align, n, el, offs


VOID = Ty("void")
PTR = Ty("ptr", 8, 8)
_ints = {}


def int_ty(bits):
    t = _ints.get(bits)
    if t is None:
        size = 1 if bits <= 8 else 2 if bits <= 16 else 4 if bits <= 32 else 8 if bits <= 64 else (bits + 127) // 128 * 16
        t = _ints[bits] = Ty("int", size, min(size, 16), bits)
    return t


class L:
    """operand: local SSA value (slot number)"""
    __slots__ = ("i", "name")

    def __init__(self, i, name):
        self.i, self.name = i, name

    def __repr__(self):
        return "%" + self.name


class GRef:
    """operand: address of a global plus constant offset"""
    __slots__ = ("name", "off")

    def __init__(self, name, off=0):
        self.name, self.off = name, off

    def __repr__(self):
        return "@%s+%d" % (self.name, self.off)


class _Undef:
    def __repr__(self):
        return "undef"


UNDEF = _Undef()


class Instr:
    __slots__ = ("op", "res", "ty", "a", "x", "dbg", "fn", "blk", "idx")

    def __init__(self, op, res=None, ty=None, a=(), x=None, dbg=None):
        self.op, self.res, self.ty, self.a, self.x, self.dbg = op, res, ty, a, x, dbg


class Block:
    __slots__ = ("name", "ins", "phis", "term", "succ", "pred", "ord", "fn", "wto", "head")

    def __init__(self, name):
        self.name, self.ins, self.phis, self.term = name, [], [], None
        self.succ, self.pred = [], []


class Func:
    __slots__ = ("name", "ret", "params", "ptys", "vararg", "blocks", "order", "nslots", "dbg", "mod", "internal",
                 "loops", "consts", "attrs")


class Global:
    __slots__ = ("name", "ty", "init", "const", "internal", "tls", "dbg")


_tok = re.compile(r'\s*(c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[%@]"[^"]*"|[%@!][-\w.$]*|-?\d+\.\d+e[-+]\d+|0x[0-9A-Fa-f]+|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[\[\]{}()<>,=*|:#])')


class Parser:
    def __init__(self, s):
        self.t = _tok.findall(s)
        self.p = 0
        self.s = s

    def peek(self):
        return self.t[self.p] if self.p < len(self.t) else None

    def next(self):
        v = self.t[self.p]
        self.p += 1
        return v

    def eat(self, x):
        if self.p < len(self.t) and self.t[self.p] == x:
            self.p += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise IRError("expected %s at %s in %s" % (x, self.t[self.p:self.p + 5], self.s[:200]))


def _align(o, a):
    return (o + a - 1) // a * a


class Module:
    def __init__(self, text, name):
        self.name = name
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.md = {}
        self._loc = {}
        self._parse(text)

    # -------------------------------------------------------------- types
    def ty(self, P):
        t = P.next()
        if t == "ptr":
            r = PTR
        elif t == "void":
            r = VOID
        elif t[0] == "i" and t[1:].isdigit():
            r = int_ty(int(t[1:]))
        elif t == "[":
            n = int(P.next())
            P.expect("x")
            el = self.ty(P)
            P.expect("]")
            r = Ty("arr", n * el.size, el.align, n, el)
        elif t == "{" or (t == "<" and P.peek() == "{"):
            packed = t == "<"
            if packed:
                P.next()
            els = []
            if not P.eat("}"):
                while True:
                    els.append(self.ty(P))
                    if P.eat("}"):
                        break
                    P.expect(",")
            if packed:
                P.expect(">")
            r = self._struct(els, packed)
        elif t == "<":
            n = int(P.next())
            P.expect("x")
            el = self.ty(P)
            P.expect(">")
            r = Ty("vec", n * el.size, n * el.size, n, el)
        elif t[0] == "%":
            r = self.types.get(t[1:].strip('"'))
            if r is None:
                raise IRError("type " + t)
        elif t == "double":
            r = Ty("fp", 8, 8)
        elif t == "float":
            r = Ty("fp", 4, 4)
        elif t == "x86_fp80":
            r = Ty("fp", 16, 16)
        elif t in ("label", "metadata", "opaque"):
            r = Ty(t)
        else:
            raise IRError("type token %r in %s" % (t, P.s[:160]))
        while P.peek() == "*":
            P.next()
            r = PTR
        return r

    @staticmethod
    def _struct(els, packed):
        o, al, offs = 0, 1, []
        for e in els:
            if not packed:
                o = _align(o, e.align)
                al = max(al, e.align)
            offs.append(o)
            o += e.size
        if not packed:
            o = _align(o, al)
        return Ty("struct", o, al, len(els), els, offs)

    # -------------------------------------------------------------- constants
    def const(self, P, ty, slots=None):
        """operand of type ty"""
        t = P.next()
        if t[0] == "%":
            return self._local(t[1:].strip('"'), slots)
        if t[0] == "@":
            return GRef(t[1:].strip('"'))
        if t == "null" or t == "false" or t == "zeroinitializer" or t == "none":
            if t == "zeroinitializer" and ty.k in ("arr", "struct", "vec"):
                return ("zero",)
            return 0
        if t == "true":
            return 1
        if t in ("undef", "poison"):
            return UNDEF
        if t[0] == "-" or t[0].isdigit():
            if ty.k == "fp":
                return ("fp", t)
            return int(t, 0) & ((1 << ty.n) - 1)
        if t[0] == "c" and t[1:2] == '"':
            return ("bytes", _cstr(t[2:-1]))
        if t in ("[", "{", "<"):
            close = {"[": "]", "{": "}", "<": ">"}[t]
            if t == "<" and P.peek() == "{":
                P.next()
                close = "}>"
            vals = []
            if P.peek() != close[0]:
                while True:
                    et = self.ty(P)
                    vals.append((et, self.const(P, et, slots)))
                    if not P.eat(","):
                        break
            for c in close:
                P.expect(c)
            return ("agg", vals)
        if t == "getelementptr":
            while P.peek() in ("inbounds", "nuw", "nusw"):
                P.next()
            P.expect("(")
            bt = self.ty(P)
            P.expect(",")
            self.ty(P)
            base = self.const(P, PTR, slots)
            idx = []
            while P.eat(","):
                P.eat("inrange")
                it = self.ty(P)
                idx.append(self.const(P, it, slots))
            P.expect(")")
            if not isinstance(base, GRef):
                raise IRError("gep const base")
            return GRef(base.name, base.off + self.gep_const(bt, idx))
        if t in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast", "trunc", "zext"):
            P.expect("(")
            it = self.ty(P)
            v = self.const(P, it, slots)
            P.expect("to")
            self.ty(P)
            P.expect(")")
            return v
        raise IRError("const %r in %s" % (t, P.s[:200]))

    @staticmethod
    def gep_const(bt, idx):
        def sg(v):
            return v - (1 << 64) if v >> 63 else v
        off = sg(idx[0]) * bt.size
        t = bt
        for i in idx[1:]:
            if t.k == "struct":
                off += t.offs[i]
                t = t.el[i]
            else:
                off += sg(i) * t.el.size
                t = t.el
        return off

    def _local(self, name, slots):
        i = slots.get(name)
        if i is None:
            i = slots[name] = len(slots)
        return L(i, name)

    # -------------------------------------------------------------- module
    def _parse(self, text):
        lines = text.split("\n")
        # metadata and named types first
        i, n = 0, len(lines)
        tdefs = []
        for ln in lines:
            if ln.startswith("!"):
                m = re.match(r"!(\d+) = (.*)", ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            elif ln.startswith("%") and " = type " in ln:
                nm, d = ln.split(" = type ", 1)
                tdefs.append((nm[1:].strip('"'), d))
        pend = tdefs
        while pend:
            rest = []
            for nm, d in pend:
                try:
                    self.types[nm] = self.ty(Parser(d)) if d.strip() != "opaque" else Ty("opaque")
                except IRError:
                    rest.append((nm, d))
            if len(rest) == len(pend):
                raise IRError("types " + str(rest[:2]))
            pend = rest
        while i < n:
            ln = lines[i]
            if ln.startswith("@"):
                self._global(ln)
            elif ln.startswith("declare"):
                m = re.search(r"@([-\w.$]+|\"[^\"]+\")\(", ln)
                self.decls.add(m.group(1).strip('"'))
            elif ln.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self._func(ln, lines[i + 1:j])
                i = j
            i += 1

    def _global(self, ln):
        m = re.match(r'@([-\w.$]+|"[^"]+") = (.*)', ln)
        name = m.group(1).strip('"')
        rest = m.group(2)
        head = re.split(r"\b(global|constant|alias|ifunc)\b", rest, maxsplit=1)
        if len(head) < 3:
            raise IRError("global " + ln[:120])
        g = Global()
        g.name = name
        g.const = head[1] == "constant"
        g.internal = "internal" in head[0] or "private" in head[0]
        g.tls = "thread_local" in head[0]
        P = Parser(head[2])
        g.ty = self.ty(P)
        m = re.search(r"!dbg !(\d+)", ln)
        g.dbg = int(m.group(1)) if m else None
        if "external" in head[0] or P.peek() is None or P.peek() == ",":
            g.init = None
        else:
            g.init = self.const(P, g.ty)
        self.globals[name] = g

    _skip = {"noundef", "signext", "zeroext", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "returned",
             "inreg", "immarg", "noundef,", "dso_local", "internal", "hidden", "local_unnamed_addr", "unnamed_addr",
             "linkonce_odr", "available_externally", "weak", "fastcc", "ccc", "dso_preemptable", "range", "private",
             "external", "inalloca", "swiftself", "nofree", "nest", "allocptr", "noext", "weak_odr", "readnone",
             "captures", "nosync", "noinline"}

    def _attrs(self, P):
        while True:
            t = P.peek()
            if t in self._skip:
                P.next()
            elif t in ("align", "dereferenceable", "dereferenceable_or_null"):
                P.next()
                if P.eat("("):
                    while not P.eat(")"):
                        P.next()
                else:
                    P.next()
            elif t in ("byval", "sret", "elementtype"):
                P.next()
                P.expect("(")
                d = 1
                while d:
                    x = P.next()
                    d += (x == "(") - (x == ")")
            else:
                return

    def _func(self, head, body):
        f = Func()
        f.mod = self
        m = re.match(r"define (.*?)@([-\w.$]+|\"[^\"]+\")\(", head)
        pre = m.group(1)
        f.name = m.group(2).strip('"')
        f.internal = " internal " in " " + pre
        P = Parser(pre)
        self._attrs(P)
        f.ret = self.ty(P)
        # parameter list
        depth, k = 1, m.end()
        while depth:
            depth += (head[k] == "(") - (head[k] == ")")
            k += 1
        ps = head[m.end():k - 1]
        tail = head[k:]
        slots = {}
        f.params, f.ptys, f.vararg = [], [], False
        if ps.strip():
            P = Parser(ps)
            while True:
                if P.eat("..."):
                    f.vararg = True
                else:
                    f.ptys.append(self.ty(P))
                    self._attrs(P)
                    f.params.append(self._local(P.next()[1:].strip('"'), slots))
                if not P.eat(","):
                    break
        mm = re.search(r"!dbg !(\d+)", tail)
        f.dbg = int(mm.group(1)) if mm else None
        f.attrs = tail
        f.blocks, f.order = {}, []
        cur = None
        it = iter(body)
        for ln in it:
            if not ln.strip() or ln.startswith("#") or ln.lstrip().startswith(";"):
                continue
            m = re.match(r'^([-\w.$]+|"[^"]+"):', ln)
            if m:
                cur = Block(m.group(1).strip('"'))
                f.blocks[cur.name] = cur
                f.order.append(cur)
                continue
            if cur is None:
                cur = Block(str(len(f.params)))
                f.blocks[cur.name] = cur
                f.order.append(cur)
            # switch spans lines
            if re.match(r"\s*switch ", ln) and "]" not in ln:
                while True:
                    l2 = next(it)
                    ln += " " + l2.strip()
                    if "]" in l2:
                        break
            if "@llvm.dbg." in ln:
                continue
            ins = self._instr(ln.strip(), slots)
            if ins is None:
                continue
            ins.fn, ins.blk = f, cur
            if ins.op == "phi":
                cur.phis.append(ins)
            elif ins.op in ("br", "condbr", "switch", "ret", "unreachable"):
                cur.term = ins
            else:
                cur.ins.append(ins)
        f.nslots = len(slots)
        for b in f.order:
            b.fn = f
            t = b.term
            if t.op == "br":
                b.succ = [f.blocks[t.x]]
            elif t.op == "condbr":
                b.succ = [f.blocks[t.x[0]], f.blocks[t.x[1]]]
            elif t.op == "switch":
                b.succ = [f.blocks[t.x[0]]] + [f.blocks[lb] for _, lb in t.x[1]]
            for s in b.succ:
                if b not in s.pred:
                    s.pred.append(b)
        f.consts = set()
        self.funcs[f.name] = f
        _wto(f)

    def _instr(self, ln, slots):
        dbg = None
        k = ln.find(", !")
        if k >= 0:
            m = re.search(r"!dbg !(\d+)", ln)
            if m:
                dbg = int(m.group(1))
            # cut metadata
            ln = ln[:k]
        ln = re.sub(r" #\d+$", "", ln)
        P = Parser(ln)
        res = None
        if P.peek()[0] == "%":
            res = self._local(P.next()[1:].strip('"'), slots)
            P.expect("=")
        op = P.next()
        while op in ("tail", "musttail", "notail"):
            op = P.next()
        I = Instr(op, res, dbg=dbg)
        ty, const = self.ty, lambda t: self.const(P, t, slots)
        if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "and", "or", "xor"):
            while P.peek() in ("nuw", "nsw", "exact", "disjoint"):
                P.next()
            I.ty = ty(P)
            a = const(I.ty)
            P.expect(",")
            I.a = (a, const(I.ty))
            return I
        if op == "icmp":
            I.x = P.next()
            t = ty(P)
            a = const(t)
            P.expect(",")
            I.a = (a, const(t))
            I.ty = t
            return I
        if op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"):
            while P.peek() in ("nneg", "nuw", "nsw"):
                P.next()
            t = ty(P)
            a = const(t)
            I.a = (a,)
            I.x = t
            if op == "freeze":
                I.ty = t
            else:
                P.expect("to")
                I.ty = ty(P)
            return I
        if op == "load":
            P.eat("atomic")
            P.eat("volatile")
            I.ty = ty(P)
            P.expect(",")
            ty(P)
            I.a = (const(PTR),)
            I.x = "atomic" if " atomic " in ln else None
            return I
        if op == "store":
            P.eat("atomic")
            P.eat("volatile")
            I.ty = ty(P)
            v = const(I.ty)
            P.expect(",")
            ty(P)
            I.a = (v, const(PTR))
            I.x = "atomic" if " atomic " in ln else None
            return I
        if op == "alloca":
            I.ty = ty(P)
            I.a = (1,)
            if P.eat(","):
                if P.peek() != "align":
                    t = ty(P)
                    I.a = (const(t),)
            return I
        if op == "getelementptr":
            while P.peek() in ("inbounds", "nuw", "nusw"):
                P.next()
            bt = ty(P)
            P.expect(",")
            ty(P)
            base = const(PTR)
            # decompose: constant offset + list of (operand, bits, scale)
            off, var = 0, []
            t = bt
            first = True
            while P.eat(","):
                it = ty(P)
                v = const(it)
                if first:
                    sc = bt.size
                    first = False
                elif t.k == "struct":
                    off += t.offs[v]
                    t = t.el[v]
                    continue
                else:
                    t = t.el
                    sc = t.size
                if isinstance(v, int):
                    sv = v - (1 << it.n) if v >> (it.n - 1) else v
                    off += sv * sc
                else:
                    var.append((v, it.n, sc))
            I.a = (base,)
            I.x = (off, var)
            I.ty = PTR
            return I
        if op == "phi":
            I.ty = ty(P)
            inc = {}
            while True:
                P.expect("[")
                v = const(I.ty)
                P.expect(",")
                lb = P.next()[1:].strip('"')
                P.expect("]")
                inc[lb] = v
                if not P.eat(","):
                    break
            I.x = inc
            return I
        if op == "br":
            if P.peek() == "label":
                P.next()
                I.x = P.next()[1:].strip('"')
                return I
            I.op = "condbr"
            t = ty(P)
            c = const(t)
            P.expect(",")
            P.expect("label")
            a = P.next()[1:].strip('"')
            P.expect(",")
            P.expect("label")
            b = P.next()[1:].strip('"')
            I.a = (c,)
            I.x = (a, b)
            return I
        if op == "switch":
            t = ty(P)
            c = const(t)
            P.expect(",")
            P.expect("label")
            d = P.next()[1:].strip('"')
            P.expect("[")
            cases = []
            while not P.eat("]"):
                ct = ty(P)
                v = const(ct)
                P.expect(",")
                P.expect("label")
                cases.append((v, P.next()[1:].strip('"')))
            I.a = (c,)
            I.ty = t
            I.x = (d, cases)
            return I
        if op == "ret":
            I.ty = ty(P)
            I.a = () if I.ty is VOID else (const(I.ty),)
            return I
        if op == "unreachable":
            return I
        if op == "select":
            ct = ty(P)
            c = const(ct)
            P.expect(",")
            I.ty = ty(P)
            a = const(I.ty)
            P.expect(",")
            ty(P)
            b = const(I.ty)
            I.a = (c, a, b)
            return I
        if op == "call":
            self._attrs(P)
            I.ty = ty(P)
            if P.peek() == "(":  # function type
                d = 0
                while True:
                    x = P.next()
                    d += (x == "(") - (x == ")")
                    if d == 0:
                        break
            if P.peek() == "asm":
                P.next()
                while P.peek() in ("sideeffect", "alignstack", "inteldialect", "unwind"):
                    P.next()
                s = P.next()
                P.expect(",")
                c = P.next()
                callee = ("asm", s, c)
            else:
                callee = const(PTR)
            P.expect("(")
            args, tys = [], []
            if not P.eat(")"):
                while True:
                    at = ty(P)
                    self._attrs(P)
                    if at.k == "metadata":
                        return None
                    tys.append(at)
                    args.append(self.const(P, at, slots))
                    if not P.eat(","):
                        break
                P.expect(")")
            I.a = tuple(args)
            I.x = (callee, tys)
            return I
        if op == "atomicrmw":
            P.eat("volatile")
            kind = P.next()
            P.expect  # noqa
            ty(P)
            p = const(PTR)
            P.expect(",")
            I.ty = ty(P)
            v = const(I.ty)
            I.a = (p, v)
            I.x = kind
            return I
        if op == "cmpxchg":
            P.eat("weak")
            P.eat("volatile")
            ty(P)
            p = const(PTR)
            P.expect(",")
            I.ty = ty(P)
            a = const(I.ty)
            P.expect(",")
            ty(P)
            b = const(I.ty)
            I.a = (p, a, b)
            return I
        if op == "fence":
            return I
        if op == "extractvalue":
            I.x = [ty(P)]
            I.a = (const(I.x[0]),)
            while P.eat(","):
                I.x.append(int(P.next()))
            return I
        if op == "insertvalue":
            t = ty(P)
            a = const(t)
            P.expect(",")
            t2 = ty(P)
            b = const(t2)
            I.a = (a, b)
            I.x = []
            while P.eat(","):
                I.x.append(int(P.next()))
            I.ty = t
            return I
        if op in ("fadd", "fsub", "fmul", "fdiv", "fcmp", "sitofp", "uitofp", "fptosi", "fptoui", "fneg", "fpext", "fptrunc"):
            I.op = "float"
            I.x = op
            return I
        raise IRError("instruction " + ln[:160])

    # -------------------------------------------------------------- debug info
    def _md_file(self, n, depth=0):
        d = self.md.get(n, "")
        m = re.search(r'DIFile\(filename: "([^"]*)"(?:, directory: "([^"]*)")?', d)
        if m:
            return m.group(1)
        m = re.search(r"file: !(\d+)", d)
        if m:
            return self._md_file(int(m.group(1)), depth + 1)
        m = re.search(r"scope: !(\d+)", d)
        if m and depth < 60:
            return self._md_file(int(m.group(1)), depth + 1)
        return "?"

    def loc(self, dbg):
        """file:line of a !dbg number"""
        if dbg is None:
            return "?"
        r = self._loc.get(dbg)
        if r is None:
            d = self.md.get(dbg, "")
            m = re.search(r"line: (\d+)", d)
            f = self._md_file(dbg)
            import os
            f = os.path.normpath(f)
            k = f.find("c-impl/")
            if k >= 0:
                f = f[k:]
            r = self._loc[dbg] = "%s:%s" % (f, m.group(1) if m else "?")
        return r


def _cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


# ------------------------------------------------------------------ weak topological order (Bourdoncle)
def _wto(f):
    import sys
    sys.setrecursionlimit(10000)
    entry = f.order[0]
    dfn = {b: 0 for b in f.order}
    num = [0]
    stack = []
    heads = {}
    seq_counter = []

    def component(v):
        part = []
        for w in v.succ:
            if dfn[w] == 0:
                visit(w, part)
        return (v, part)

    def visit(v, part):
        stack.append(v)
        num[0] += 1
        head = dfn[v] = num[0]
        loop = False
        for w in v.succ:
            if dfn[w] == 0:
                m = visit(w, part)
            else:
                m = dfn[w]
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = float("inf")
            el = stack.pop()
            if loop:
                while el is not v:
                    dfn[el] = 0
                    el = stack.pop()
                part.insert(0, component(v))
            else:
                part.insert(0, v)
        return head

    top = []
    visit(entry, top)
    cnt = [0]
    f.loops = {}

    def number(part, chain):
        for e in part:
            if isinstance(e, tuple):
                h, sub = e
                h.wto = cnt[0]
                cnt[0] += 1
                h.head = chain + (h,)
                number(sub, chain + (h,))
            else:
                e.wto = cnt[0]
                cnt[0] += 1
                e.head = chain
    for b in f.order:
        b.wto, b.head = -1, ()
    number(top, ())
    for b in f.order:
        for h in b.head:
            f.loops.setdefault(h, set()).add(b)


def link(mods):
    """name -> Func over several modules (internal names are kept per module via Func.mod)"""
    table = {}
    for m in mods:
        for n, f in m.funcs.items():
            if not f.internal:
                table[n] = f
    return table
