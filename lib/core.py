"""Reporting shared by all checks: violations, known findings, evidence, exit status.

exit 0  every obligation discharged (known findings are printed, not counted)
exit 1  at least one violation not listed in known-findings.txt
exit 3  the analysis itself could not be carried out (vanished anchor, parse failure)
"""
import json, os, sys, time, traceback, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Broken(Exception):
    pass


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) key=(\S+)\s*(.*)$", l.rstrip("\n"))
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.viol = {}
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.rule = ""

    def ob(self, ok=True, sample=None, n=1):
        """Count obligations; keep a few written-out samples."""
        self.obligations += n
        if ok:
            self.discharged += n
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def violation(self, key, where, text):
        key = re.sub(r"\s+", "_", key)
        if key not in self.viol:
            self.viol[key] = (where, text)

    def require(self, cond, what):
        if not cond:
            raise Broken(what)

    def finish(self):
        kf = known_findings()
        new = {k: v for k, v in self.viol.items() if (self.pid, k) not in kf}
        old = {k: v for k, v in self.viol.items() if (self.pid, k) in kf}
        ev = {
            "property": self.pid, "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": dict({
                "explanation": self.rule,
                "obligations": self.obligations,
                "discharged": self.discharged,
                "samples": self.samples or ["(none)"],
            }, **self.cov),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        if old:
            ev["coverage"]["known_findings"] = [{"key": k, "where": v[0], "what": v[1]} for k, v in sorted(old.items())]
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        for k, (w, t) in sorted(old.items()):
            print("KNOWN-FINDING: property=%s %s (%s): %s" % (self.pid, k, w, kf[(self.pid, k)] or t))
        if new:
            rd = os.path.join(d, "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.pid + ".txt")
            with open(rp, "w") as f:
                f.write("property %s\nrule: %s\n\n" % (self.pid, self.rule))
                for k, (w, t) in sorted(new.items()):
                    f.write("%s\n  key: %s\n  %s\n\n" % (w, k, t))
            ev["coverage"]["violations"] = [{"key": k, "where": v[0], "what": v[1]} for k, v in sorted(new.items())][:40]
            for k, (w, t) in sorted(new.items())[:40]:
                print("%s: %s  [%s]" % (w, t, k))
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(rp, VERIF)))
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d obligations, %d discharged, %d new violation(s), %d known finding(s), %.1f s" % (
            self.pid, self.obligations, self.discharged, len(new), len(old), time.time() - self.t0))
        return 1 if new else 0


def run(pid, fn, tier):
    sys.setrecursionlimit(100000)
    c = Check(pid, tier)
    try:
        fn(c)
        return c.finish()
    except Broken as e:
        print("ANALYSIS-BROKEN %s: %s" % (pid, e))
        return 3
    except Exception as e:
        traceback.print_exc()
        print("ANALYSIS-BROKEN %s: %s: %s" % (pid, type(e).__name__, e))
        return 3


_job = None


def _call(i):
    return _job[0](_job[1][i])


def pmap(fn, items):
    """[fn(x) for x in items] over all cores (fork; fn may be a closure, results are pickled)"""
    import multiprocessing
    global _job
    n = min(len(items), os.cpu_count() or 1)
    if n <= 1:
        return [fn(x) for x in items]
    _job = (fn, items)
    with multiprocessing.get_context("fork").Pool(n) as pool:
        return pool.map(_call, range(len(items)), chunksize=max(1, len(items) // (n * 6)))
