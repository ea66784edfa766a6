from sa import report, vfacts, bodies
from .common import *


def job(rep, bits, thr, thorough):
    rep.thorough = thorough
    verify_run(rep, bits, thr, [vfacts.walks])


def step(rep, bits, side, thorough, part, n):
    rep.thorough = thorough
    bodies.steps(rep, bits, side, part, n)


def pts(rep, bits):
    bodies.points(rep, bits)


def run(rep):
    rep.rule("on every accepting abstract outcome of Verify: each transmitted kernel point was accepted by the step function on the curve reached "
             "so far, all steps are taken, the walk starts at the claimed curve, and the image of the backtracking point was found non-zero")
    rep.rule("the step functions are decided in the domain of point orders: they accept exactly full-order kernels, every inner 2-, 3- or "
             "4-isogeny is taken with a kernel of exactly that order on the curve reached, the carried point passes every one of them, and the "
             "backtracking point generates the dual direction")
    th = rep.thorough
    n = 8 if th else 1
    report.parallel(rep, [(job, c + (th,)) for c in configs()] + [(step, (b, s, th, k, n)) for b in reversed(PRIMES) for s in "AB" for k in range(n)] +
                    [(pts, (b,)) for b in PRIMES])
    rep.need("every kernel point is checked on the curve reached so far", 1000)
    rep.need("a kernel point of another order is refused", 4000)
    rep.need("the step is divided by the whole kernel", 4 * (27 + 9))
    rep.need("the backtracking point generates the dual direction", 4 * 24)
