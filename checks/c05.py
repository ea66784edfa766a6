from sa import report, prun, bodies
from .common import *


def prove(rep, bits, thr):
    r = prun.PRun(bits, thr)
    if r.missing:
        raise RuntimeError("boundary functions not found: %s" % r.missing)
    rep.count("IR instructions interpreted (Prove)", r.I.stats["instructions"])
    rep.count("call sites followed (Prove)", r.I.stats["calls"])
    prun.responses(rep, r)


def inst(rep, bits):
    r = prun.IRun(bits)
    if r.missing:
        raise RuntimeError("boundary functions not found: %s" % r.missing)
    prun.instance(rep, r)
    prun.randompoint(rep, bits)
    bodies.walkpoints(rep, bits)


def run(rep):
    rep.rule("abstract run of Prove with one label per instance component and per random draw: under each challenge value every byte stored in a response "
             "carries only labels of the components that challenge opens, of its own repetition, and never of the inner secret walk")
    rep.rule("every bottom kernel point carries the label of a random draw no other point carries; the factor covers the whole exponent range")
    rep.rule("abstract run of Instance, twice: hiding strings are complete, distinct draws; kernel points of the left walk are points drawn for that step; "
             "the bottom walk is the secret walk pushed through every step of the left walk; commitments hash the instance's own strings and curves")
    rep.rule("random_point and Random_Point_A/B: coordinates are full draws, the point returned is the last one drawn and has full order")
    report.parallel(rep, [(prove, c) for c in configs()] + [(inst, (b,)) for b in PRIMES])
    rep.need("a response depends only on what its challenge opens", 50000)
    rep.need("every bottom kernel point is rescaled with a random factor of its own", 10000)
    rep.need("left walks are drawn freshly", 40)
    rep.need("walk points are fresh, of full order and avoid the way back", 40)
