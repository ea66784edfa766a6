from sa import report, kem
from .common import *


def job(rep, bits, th):
    rep.thorough = th
    kem.validation(rep, bits)


def run(rep):
    rep.rule("abstract run of decapsulation in the domain of point orders: public keys are described by the orders of the transmitted points, their "
             "dependence and the kind of the curve; the ladder with the secret key is reached only for full-order independent points")
    report.parallel(rep, [(job, (b, rep.thorough)) for b in reversed(PRIMES)])
    rep.need("an invalid public key never meets the secret key", 100)
    rep.need("a valid public key is accepted", 4)
    rep.need("an invalid public key leads to the rejection key", 100)
