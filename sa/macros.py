"""Object-like macros of a translation unit, evaluated."""
import os, re, subprocess
from . import build

_c = {}


def table(src, flags):
    k = (src, tuple(flags))
    if k not in _c:
        r = subprocess.run([build.tool("clang"), "-E", "-dM", "-D__NIX__"] + flags + [src], capture_output=True, text=True)
        if r.returncode:
            raise build.BuildError(r.stderr[:1000])
        t = {}
        for l in r.stdout.splitlines():
            m = re.match(r"#define (\w+) (.*)$", l)
            if m:
                t[m.group(1)] = m.group(2).strip()
        _c[k] = t
    return _c[k]


class Macros:
    def __init__(self, src, flags):
        self.t = table(src, flags)

    def get(self, name, default=None):
        try:
            return self[name]
        except (KeyError, SyntaxError, ValueError, NameError):
            return default

    def __getitem__(self, name, depth=0):
        if name not in self.t:
            raise KeyError(name)
        return self.eval(self.t[name])

    def eval(self, e, depth=0):
        if depth > 30:
            raise ValueError(e)
        e = re.sub(r"\b(0[xX][0-9a-fA-F]+|\d+)[uUlL]+\b", r"\1", e)
        e = re.sub(r"\bNBITS_TO_NBYTES\(", "_nbytes(", e)
        e = re.sub(r"\bNBITS_TO_NWORDS\(", "_nwords(", e)
        names = set(re.findall(r"\b[A-Za-z]\w*\b", e)) - {"x", "X"}
        env = {"_nbytes": lambda n: (n + 7) // 8, "_nwords": lambda n: (n + 63) // 64}
        for n in names:
            if re.match(r"0[xX]", n) or not re.search(r"\b%s\b" % n, e):
                continue
            if n in self.t:
                env[n] = self.eval(self.t[n], depth + 1)
        e2 = e.replace("/", "//")
        return eval(e2, {"__builtins__": {}}, env)


def lib(bits, kind, arch="fast"):
    top = {"plain": "P%d.c", "compressed": "P%d_compressed.c", "poik": "P%d_poik.c"}[kind] % bits
    src = os.path.join(build.SRC, "P%d" % bits, top)
    fl = ["-std=gnu11", "-DNDEBUG"] + build.ARCH[arch]
    return Macros(src, fl)
