from sa import report, kem, delivery
from .common import *


def run(rep):
    rep.rule("random.c, all internal calls inlined: affine-equality (Karr) analysis of the delivery loop; on every path that returns 0 the bytes written by "
             "the system generator form the complete buffer, for every request length and every sequence of short, failed and interrupted reads")
    rep.rule("abstract runs of key generation, encapsulation and the secret samplers with a draw forking into delivered and failed: no outcome after a "
             "failed draw reports success, and every byte of secret material carries the label of a delivered draw")
    rep.rule("abstract runs of Instance, Prove and random_point: no path goes on after a failed draw; every call site of the random source is covered")
    report.parallel(rep, [(delivery.source, ())] + [(delivery.library, (b,)) for b in PRIMES] +
                    [(kem.delivery, (b, k)) for b in PRIMES for k in ("plain", "compressed")])
    rep.need("a failed draw is reported or aborts", 40)
    rep.need("after a failed draw the proof library does not carry on", 12)
    rep.need("secret material is filled from the random source", 40)
    rep.need("randombytes reports success only after delivering every byte", 1)
