"""Data layout of C types, from the compiler's debug information."""
import re


class Layout:
    def __init__(self, mod):
        self.md = mod.md
        self.structs = {}
        for i, d in self.md.items():
            m = re.search(r'DICompositeType\(tag: DW_TAG_(structure|union)_type, name: "(\w+)"', d)
            if m and "elements:" in d:
                self.structs.setdefault(m.group(2), i)
        self.typedefs = {}
        for i, d in self.md.items():
            m = re.search(r'DIDerivedType\(tag: DW_TAG_typedef, name: "(\w+)".*baseType: !(\d+)', d)
            if m:
                self.typedefs.setdefault(m.group(1), int(m.group(2)))

    def _num(self, d, k, default=None):
        m = re.search(r"\b%s: !?(\d+)" % k, d)
        return int(m.group(1)) if m else default

    def strip(self, i):
        while i is not None:
            d = self.md[i]
            if "DIDerivedType" in d and any(t in d for t in ("DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type", "DW_TAG_atomic_type")):
                i = self._num(d, "baseType")
            else:
                return i
        return i

    def size(self, i):
        i = self.strip(i)
        s = self._num(self.md[i], "size")
        return (s or 0) // 8

    def members(self, i):
        """[(name, offset, type id)], anonymous members flattened"""
        i = self.strip(i)
        d = self.md[i]
        el = self._num(d, "elements")
        out = []
        for e in re.findall(r"!(\d+)", self.md[el]):
            x = self.md[int(e)]
            if "DW_TAG_member" not in x:
                continue
            m = re.search(r'name: "(\w+)"', x)
            off = (self._num(x, "offset", 0)) // 8
            bt = self._num(x, "baseType")
            if m:
                out.append((m.group(1), off, bt))
            else:
                out += [(n, off + o, t) for n, o, t in self.members(bt)]
        return out

    def array(self, i):
        """(count, element type id) or None"""
        i = self.strip(i)
        d = self.md[i]
        if "DW_TAG_array_type" not in d:
            return None
        el = self._num(d, "elements")
        cnt = []
        for e in re.findall(r"!(\d+)", self.md[el]):
            cnt.append(self._num(self.md[int(e)], "count", 0))
        n = 1
        for c in cnt:
            n *= c
        return cnt, n, self._num(d, "baseType")

    def by_name(self, name):
        i = self.structs.get(name)
        if i is None:
            i = self.typedefs.get(name)
        if i is None:
            raise KeyError("type " + name)
        return i

    def field(self, t, path):
        """offset, type id of a.b.c inside type t (name or id)"""
        i = self.by_name(t) if isinstance(t, str) else t
        off = 0
        for p in path.split("."):
            for n, o, b in self.members(i):
                if n == p:
                    off += o
                    i = b
                    break
            else:
                raise KeyError("field %s" % p)
        return off, i


class Proof:
    """layout of struct proof"""
    def __init__(self, mod):
        L = self.L = Layout(mod)
        self.size = L.size(L.by_name("proof"))
        self.E0, e = L.field("proof", "E0")
        self.E1, _ = L.field("proof", "E1")
        self.enc = L.size(e)
        self.resp, rt = L.field("proof", "resp")
        cnt, self.reps, el = L.array(rt)
        self.rsize = L.size(el)
        self.fields = {}
        self.tag, tt = L.field(el, "tag")
        self.tagsize = L.size(tt)
        for k in ("left", "bottom", "right"):
            off, t = L.field(el, k)
            fs = {}
            for n, o, b in L.members(t):
                fs[n] = (off + o, L.size(b))
                if n == "chain":
                    xo, xt = L.field(b, "x")
                    _, c, xe = L.array(xt)
                    fs[n] = (off + o + xo, L.size(xt))
                    fs["chain#"] = c
            self.fields[k] = fs

    def r(self, i, kind, field, j=0):
        o, n = self.fields[kind][field]
        return self.resp + i * self.rsize + o + j * self.enc

    def tagoff(self, i):
        return self.resp + i * self.rsize + self.tag
