"""Verdict, evidence and known-finding handling shared by all checks."""
import json, os, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("SA_EVIDENCE", os.path.join(ROOT, "evidence"))
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Report:
    def __init__(self, prop, level="other"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.counts = {}
        self.viol = []           # (key, where, message)
        self.rules = []
        self.errors = []
        self.samples = []
        self.assumptions = []

    # -- collecting
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ok(self, what, cond, where, msg, key=None):
        """one obligation"""
        self.count("obligations")
        self.count("rule: " + what)
        if cond:
            self.count("discharged")
        else:
            self.viol.append((key or "%s %s" % (what, where), where, "%s: %s" % (what, msg)))
        return cond

    def violation(self, what, where, msg, key=None):
        self.viol.append((key or "%s %s" % (what, where), where, "%s: %s" % (what, msg)))

    def need(self, what, n):
        """vacuity guard: at least n instances of a rule must have been seen"""
        if self.counts.get("rule: " + what, 0) < n and not self.viol:
            self.errors.append("only %d instances of rule '%s' (at least %d expected)" % (self.counts.get("rule: " + what, 0), what, n))

    def error(self, msg):
        self.errors.append(msg)

    def rule(self, text):
        self.rules.append(text)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def dump(self):
        return (self.counts, self.viol, self.errors, self.samples)

    def merge(self, d):
        c, v, e, s = d
        for k, n in c.items():
            self.count(k, n)
        self.viol += v
        self.errors += e
        for x in s:
            self.sample(x)

    # -- finishing
    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        try:
            seed = int(os.environ.get("VERIF_SEED", "0"))
        except ValueError:
            seed = 0
        known = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                if l.startswith("known: property=%s key=" % self.prop):
                    known.append(l.split("key=", 1)[1].split(" :: ")[0].strip())
        seen = {}
        for k, w, m in self.viol:
            seen.setdefault((k, m), (k, w, m))
        viol = list(seen.values())
        new = [v for v in viol if v[0] not in known]
        old = [v for v in viol if v[0] in known]
        cov = {"explanation": "Static analysis of the LLVM IR (and, where stated, assembly and reference sources) compiled from /repo's "
               "current tree; nothing is executed. Rules: " + " | ".join(self.rules)}
        cov.update({k: v for k, v in sorted(self.counts.items())})
        if self.samples:
            cov["samples"] = self.samples
        ev = {"property": self.prop, "tier": tier, "seed": seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        if old:
            cov["known_findings"] = [m for _, _, m in old]
        if self.errors:
            cov["errors"] = self.errors[:20]
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, w, m in old:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, w, m))
        print("%s: %d obligations, %d discharged, %.1f s" % (self.prop, self.counts.get("obligations", 0),
                                                           self.counts.get("discharged", 0), time.time() - self.t0))
        if new:
            path = os.path.join(EVID, "replay_%s.txt" % self.prop)
            with open(path, "w") as f:
                for k, w, m in new:
                    f.write("%s\n  at %s\n  key %s\n" % (m, w, k))
            for k, w, m in new[:12]:
                print("  %s: %s" % (w, m))
            if len(new) > 12:
                print("  ... %d more in %s" % (len(new) - 12, path))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush()
            os._exit(1) if False else sys.exit(1)
        if self.errors:
            for e in self.errors[:10]:
                print("ANALYSIS-ERROR %s: %s" % (self.prop, e))
            sys.exit(2)
        sys.exit(0)


def parallel(rep, jobs, nproc=8):
    """jobs: [(function, args)]; function(sub-report, *args) runs in a forked process"""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    with ctx.Pool(min(nproc, max(1, len(jobs))), maxtasksperchild=1) as pool:
        rs = [pool.apply_async(_job, (rep.prop, f, a)) for f, a in jobs]
        for r in rs:
            rep.merge(r.get())


def _job(prop, f, a):
    sub = Report(prop)
    sys.setrecursionlimit(20000)
    try:
        f(sub, *a)
    except Exception as e:
        sub.error("%s%r: %s: %s\n%s" % (f.__name__, a, type(e).__name__, e, traceback.format_exc()[-1500:]))
    return sub.dump()
