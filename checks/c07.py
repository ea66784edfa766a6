from sa import report, iocheck, progs
from .common import *


def job(rep, bits):
    iocheck.formats(rep, bits, "write")
    progs.written(rep, bits, "verify.c")
    progs.written(rep, bits, "prove.c")


def run(rep):
    rep.rule("typestate over the output stream: every write and flush forks into accepted and failed; no outcome that reports success "
             "(true from the writers, exit status 0 from the programs) carries a failed or unflushed write")
    report.parallel(rep, [(job, (b,)) for b in reversed(PRIMES)])
    rep.need("status 0 only if no write failed", 8)
    rep.need("writing a proof reports every failed write", 4)
    rep.need("writing a curve reports every failed write", 4)
