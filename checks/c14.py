from sa import report, race
from .common import *


def run(rep):
    rep.rule("abstract runs of Prove and Verify with worker threads: every access of a worker to an object that outlives it is recorded per unit of work "
             "(the ticket drawn from the atomic counter); two units, and the starting thread until the join, may share a byte only if neither writes or both "
             "accesses are atomic")
    rep.rule("every thread started is joined before the function returns; a failed start or join aborts; the work counter never moves backwards")
    rep.rule("no function reachable from a worker (call graph over proof, field, hash and random code) accesses a mutable global without synchronisation")
    report.parallel(rep, [(race.verify, (b,)) for b in reversed(PRIMES)] + [(race.prove, (b,)) for b in reversed(PRIMES)] + [(race.globalstate, (b,)) for b in PRIMES])
    rep.need("no two units of work touch the same byte unless both only read or both are atomic", 8)
    rep.need("work is handed out one repetition at a time", 8)
