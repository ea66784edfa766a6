from sa import report, vfacts, progs
from .common import *


def job(rep, bits, thr):
    verify_run(rep, bits, thr, [vfacts.tags_ok] + ([vfacts.flags] if thr else []))


def prog(rep, bits):
    progs.verify_prog(rep, bits)


def run(rep):
    rep.rule("on every abstract outcome of Verify that may be true, the facts collected on the way entail, for each repetition and "
             "response kind, that its walk check succeeded and that the transmitted tag equals the digit re-derived from the challenge hash")
    report.parallel(rep, [(job, c) for c in configs()] + [(prog, (b,)) for b in PRIMES])
    rep.need("verify exits with status 0 only for an accepted proof", 4)
    rep.need("every repetition is examined before acceptance", 1000)
