from sa import build, vrun, vfacts, report

PRIMES = build.PRIMES


def verify_run(rep, bits, threading, parts):
    """abstract run of Verify; parts: functions of vfacts to apply"""
    r = vrun.VRun(bits, threading=threading)
    rep.count("IR instructions interpreted (Verify)", r.I.stats["instructions"])
    rep.count("call sites followed (Verify)", r.I.stats["calls"])
    if r.missing:
        raise RuntimeError("boundary functions not found: %s" % r.missing)
    if not r.outs:
        rep.error("Verify has no outcome")
        return
    vf = vfacts.VF(r)
    if not vf.acc:
        rep.error("Verify never accepts (P%d)" % bits)
        return
    for p in parts:
        p(rep, vf)


def configs():
    return [(751, True), (751, False), (610, True), (610, False), (503, True), (503, False), (434, True), (434, False)]
