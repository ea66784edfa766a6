from sa import report, vfacts, bodies, prun
from .common import *


def job(rep, bits, thr):
    verify_run(rep, bits, thr, [vfacts.certificates])


def cert(rep, bits, kind, thorough, part, n):
    rep.thorough = thorough
    bodies.certificates(rep, bits, kind, part, n)


def gen(rep, bits):
    prun.generate(rep, bits)


def run(rep):
    rep.rule("on every abstract outcome of Generate that reports success the starting curve passed the order certificate")
    rep.rule("on every accepting abstract outcome of Verify both statement curves and the middle curve of every bottom response passed the order certificate")
    rep.rule("the certificate is decided in the domain of point orders, for sequences of up to three random points: it says yes only if all points examined "
             "are annihilated by p+1 and the 2- and 3-parts they prove, added only for points above different points of order 2 (3), exceed 4p")
    th = rep.thorough
    jobs = [(cert, (434, "three", th, k, 8)) for k in range(8)]
    for b in reversed(PRIMES):
        if th and b != 434:
            jobs += [(cert, (b, "three", False, k, 8)) for k in range(8)]
        jobs += [(cert, (b, "two", th, k, 4)) for k in range(4)] + [(cert, (b, "threshold", th, k, 4)) for k in range(4)]
    report.parallel(rep, [(job, c) for c in configs()] + jobs + [(gen, (b,)) for b in PRIMES])
    rep.need("middle curves are certified", 400)
    rep.need("the certificate works on the curve in question", 2000)
    rep.need("acceptance means a proven group order above 4p", 300)
