"""Verdict plumbing shared by all checks: known findings, evidence, VIOLATION lines, scratch."""
import fnmatch, json, os, re, shutil, sys, tempfile, time, traceback, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH_BASE = os.environ.get("VERIF_SCRATCH", "/tmp")


class HarnessError(Exception):
    """The machinery itself failed; neither held nor violated."""


def load_known():
    """finding: property=<id> key=<glob> <what fails>   (anything else suppresses nothing)"""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


CURRENT = []


def enough():
    """quick tier: once violations are at hand, the rest of the work only costs time"""
    c = CURRENT[0] if CURRENT else None
    return bool(c and c.quick and c.violations and (len(c.violations) >= 4 or time.time() - c.t0 > 200))


class Check:
    def __init__(self, prop, level="exploration", rule=""):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.rule = rule
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.observed = {}          # monitor counters
        self.assumptions = []
        self.violations = {}        # key -> (msg, detail)
        self.known_hit = {}
        self.known = load_known()
        self.lock = threading.Lock()
        CURRENT.append(self)
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop, dir=SCRATCH_BASE)

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        with self.lock:
            print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ---- evidence
    def case(self, ident, sample=None):
        """one evaluated case; ident identifies it among distinct non-trivial ones (None = trivial)"""
        with self.lock:
            self.evaluations += 1
            if ident is not None:
                self.distinct.add(ident if isinstance(ident, (str, int, tuple)) else json.dumps(ident, sort_keys=True))
            if sample is not None and len(self.samples) < 12:
                self.samples.append(sample)

    def cases(self, count, idents=()):
        with self.lock:
            self.evaluations += count
            self.distinct.update(idents)

    def observe(self, name, n=1):
        with self.lock:
            self.observed[name] = self.observed.get(name, 0) + n

    def observe_max(self, name, v):
        with self.lock:
            self.observed[name] = max(self.observed.get(name, v), v)

    # ---- verdicts
    def violation(self, key, msg, detail=None):
        with self.lock:
            for prop, pat, what in self.known:
                if prop == self.prop and fnmatch.fnmatchcase(key, pat):
                    self.known_hit.setdefault((pat, what), []).append((key, msg))
                    return
            if key not in self.violations:
                self.violations[key] = (msg, detail)
                print("  !! %s: %s" % (key, msg), flush=True)
                if len(self.violations) == 1 and self.quick:
                    w = threading.Timer(max(1, self.t0 + 720 - time.time()), self._deadline)
                    w.daemon = True
                    w.start()

    def _deadline(self):
        print("time is up, reporting what was observed so far", flush=True)
        self.finish()
        sys.stdout.flush()
        self.cleanup()
        os._exit(1)

    def _evidence(self, verdict):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.distinct),
            "rule": self.rule,
            "samples": self.samples or ["none"],
            "observed": self.observed,
            "verdict": verdict,
            "known_findings_seen": [{"finding": k[1], "count": len(v)} for k, v in self.known_hit.items()],
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    def finish(self):
        for (pat, what), hits in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s (seen %d times)" % (self.prop, what, len(hits)))
        if not self.violations and self.evaluations == 0:
            raise HarnessError("nothing was observed")
        self._evidence("violated" if self.violations else "held on everything observed")
        from . import build
        if build.skipped:
            self.observed["parts_left_out"] = list(build.skipped)
            self._evidence("violated" if self.violations else "held on everything observed")
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, (key, (msg, detail)) in enumerate(sorted(self.violations.items())):
            path = os.path.join(rdir, "%s_%d.json" % (self.prop, i))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "key": key, "message": msg, "seed": self.seed,
                           "tier": self.tier, "detail": detail,
                           "rerun": "cd %s && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (VERIF, self.seed, self.tier, self.prop)},
                          f, indent=1, default=str)
            print("%s: %s" % (key, msg))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("%s %s: %d evaluations, %d distinct, %d violations, %.1f s; observed %s" % (
            self.prop, self.tier, self.evaluations, len(self.distinct), len(self.violations),
            time.time() - self.t0, json.dumps(self.observed, default=str)))
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def main(prop):
    import importlib
    mod = importlib.import_module("vf.checks." + prop.lower())
    chk = Check(prop, getattr(mod, "LEVEL", "exploration"), getattr(mod, "RULE", ""))
    chk.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    rc = 2
    try:
        mod.run(chk)
        rc = chk.finish()
    except HarnessError as e:
        print("HARNESS ERROR: %s" % e)
        if chk.violations:      # what was already observed stands
            rc = chk.finish()
    except Exception:
        traceback.print_exc()
        if chk.violations:
            rc = chk.finish()
    finally:
        chk.cleanup()
    return rc
