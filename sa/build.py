"""Compile /repo's current sources to LLVM IR, in the configurations the project builds."""
import os, subprocess, hashlib, tempfile, shutil, atexit
from . import ir

REPO = os.environ.get("SA_REPO", "/repo")
SRC = os.path.join(REPO, "c-impl/PQCrypto-SIDH/src")
PRIMES = (434, 503, 610, 751)
LLVM = "/usr/lib/llvm-18/bin"
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="sa_")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


class BuildError(Exception):
    pass


BASE = ["-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-Wno-everything", "-S", "-emit-llvm", "-D__NIX__"]
ARCH = {"fast": ["-D_AMD64_", "-D_FAST_", "-D_MULX_", "-D_ADX_", "-mbmi2", "-madx"],
        "generic": ["-D_AMD64_", "-D_GENERIC_"]}


def tool(n):
    p = os.path.join(LLVM, n)
    return p if os.path.exists(p) else n


def compile_ll(src, flags, passes="mem2reg"):
    out = os.path.join(scratch(), hashlib.md5(repr((src, flags)).encode()).hexdigest() + ".ll")
    cmd = [tool("clang")] + BASE + flags + [src, "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("clang failed on %s:\n%s" % (src, r.stderr[:2000]))
    r = subprocess.run([tool("opt"), "-passes=" + passes, "-S", out, "-o", "-"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("opt failed on %s:\n%s" % (src, r.stderr[:2000]))
    os.unlink(out)
    return r.stdout


_cache = {}


def module(src, flags, passes="mem2reg"):
    k = (src, tuple(flags), passes)
    if k not in _cache:
        _cache[k] = ir.Module(compile_ll(src, flags, passes), os.path.basename(src))
    return _cache[k]


def inlined(src, flags, keep):
    """module of one source file with every internal call inlined into the functions of interest"""
    k = (src, tuple(flags), "inlined")
    if k not in _cache:
        out = os.path.join(scratch(), hashlib.md5(repr(k).encode()).hexdigest() + ".ll")
        cmd = [tool("clang"), "-O1", "-g", "-Xclang", "-disable-llvm-passes", "-fno-builtin", "-Wno-everything", "-S", "-emit-llvm", "-D__NIX__"] + flags + [src, "-o", out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("clang failed on %s:\n%s" % (src, r.stderr[:2000]))
        r = subprocess.run([tool("opt"), "-passes=function(mem2reg),inline,function(sroa,mem2reg)", "-inline-threshold=100000", "-S", out, "-o", "-"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("opt failed on %s:\n%s" % (src, r.stderr[:2000]))
        os.unlink(out)
        _cache[k] = ir.Module(r.stdout, os.path.basename(src))
    return _cache[k]


def lib(bits, kind, arch="fast", threading=True, ndebug=True, fp=True):
    """modules of one library.  kind: plain | compressed | poik"""
    fl = ["-std=gnu11"] + ARCH[arch]
    if ndebug:
        fl.append("-DNDEBUG")
    if threading:
        fl += ["-DTHREADING", "-pthread"]
    top = {"plain": "P%d.c", "compressed": "P%d_compressed.c", "poik": "P%d_poik.c"}[kind] % bits
    d = os.path.join(SRC, "P%d" % bits)
    ms = [module(os.path.join(d, top), fl)]
    if fp:
        ms.append(module(os.path.join(d, "AMD64/fp_x64.c" if arch == "fast" else "generic/fp_generic.c"), fl))
    return ms


def misc(arch="fast"):
    fl = ["-std=gnu11", "-DNDEBUG"] + ARCH[arch]
    return [module(os.path.join(SRC, "random/random.c"), fl), module(os.path.join(SRC, "sha3/fips202.c"), fl)]


def program(name, bits):
    fl = ["-std=c11", "-DNDEBUG", "-DTHREADING", "-pthread", "-DPOIK_BITS=%d" % bits, "-I", SRC]
    return module(os.path.join(REPO, "c-impl", name), fl)
