from sa import report, vfacts, prun
from .common import *


def job(rep, bits, thr):
    lay = []
    verify_run(rep, bits, thr, [lambda rp, vf: lay.append(vfacts.hashes(rp, vf))])
    r = prun.PRun(bits, thr)
    if r.missing:
        raise RuntimeError("boundary functions not found: %s" % r.missing)
    p = prun.challenge(rep, r)
    if p and lay and lay[0]:
        v = (lay[0][0], lay[0][3])
        d = next(((a, b) for a, b in zip(p[0], v[0]) if tuple(a) != tuple(b)), None)
        rep.ok("prover and verifier hash the same sequence", p[1] == v[1] and d is None and len(p[0]) == len(v[0]), "poik.c Prove / Verify (P%d)" % bits,
               "the prover hashes %d bytes, the verifier %d; first difference %r" % (p[1], v[1], d))


def body(rep, bits):
    prun.ternary(rep, bits)
    prun.instance(rep, prun.IRun(bits))


def run(rep):
    rep.rule("abstract run of Verify: the single absorbed challenge input consists of a constant domain tag, both halves of both statement invariants and both "
             "complete commitments of every repetition; recomputed commitments are hashes of a different domain tag, the complete hiding string and the complete invariant "
             "of the curve the walk ended on; transmitted ones are used whole")
    rep.rule("abstract run of Prove and Instance: same structure and the same byte layout on the prover's side")
    rep.rule("sample_ternary interpreted in the constant domain for each of the 256 byte values: bytes used give every digit string equally often")
    report.parallel(rep, [(job, c) for c in configs()] + [(body, (b,)) for b in PRIMES])
    rep.need("every absorbed commitment is complete", 400)
    rep.need("both commitments of every repetition enter the prover's challenge", 400)
    rep.need("prover and verifier hash the same sequence", 8)
    rep.need("bytes used give every digit string equally often", 20)
