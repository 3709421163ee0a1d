"""System-call fault injection and tracing of the real plotter (tools/iotrace)."""
import json, os, random, re, shutil
from . import plots as P
from .core import HarnessError

ID0 = "5eed" * 16


def parse(log):
    """[(n, call, ret, flags, path, path2, injected)] in order of completion"""
    out = []
    for l in open(log, errors="replace"):
        f = l.split()
        if len(f) < 4 or f[2] == "KILL":
            continue
        m = re.match(r"ret=(-?\d+)", f[3])
        if not m:
            continue
        call, ret = f[2], int(m.group(1))
        rest = f[4:]
        inj = "INJECTED" in rest
        fl = next((x[6:] for x in rest if x.startswith("flags=")), "")
        paths = [x for x in rest if x.startswith("/")]
        mode = "w" if call == "close" and "w" in rest else fl
        out.append((int(f[0]), call, ret, mode, paths[0] if paths else "", paths[1] if len(paths) > 1 else "", inj))
    return out


class Traced:
    """one plotter run under iotrace"""

    def __init__(self, chk, t, faults=(), kill=None, tag="", stall=12, limit=180, pid=ID0, fast=True, root=None, inside=None, now=None, **cfg):
        self.chk, self.t = chk, t
        self.run = P.PlotRun(chk, t["chia_plot"], pid=pid, tag="io" + tag, stall=stall, limit=limit, root=inside, **cfg)
        r = self.run
        if now:
            r.env["VERIF_TIME"] = str(now)
        self.log = r.dir + tag + ".log"
        self.stats = r.dir + tag + ".stats"
        w = [t["iotrace"], "--root", root or r.dir, "--log", self.log, "--stats", self.stats]
        for f in faults:
            w += ["--fault", f]
        if kill:
            w += ["--kill", str(kill)]
        r.wrap = w + ["--"]
        if fast and "fastsleep.so" in t:
            r.env["LD_PRELOAD"] = (r.env.get("LD_PRELOAD", "") + ":" + t["fastsleep.so"]).lstrip(":")
        self.faults, self.kill = list(faults), kill

    def go(self):
        self.run.run()
        self.rc = self.run.rc
        if self.rc == 250:
            raise HarnessError("iotrace failed: " + self.run.proc.output(400))
        self.st = json.load(open(self.stats)) if os.path.exists(self.stats) else {"ops": 0, "faults": [{"seen": 0, "fired": 0}] * len(self.faults), "code": None}
        return self

    def ops(self):
        return parse(self.log)

    def fired(self):
        return [f["fired"] for f in self.st["faults"]]

    def repro(self):
        return dict(self.run.repro(), faults=self.faults, kill=self.kill)

    def clean(self):
        self.run.clean()
        for f in (self.log, self.stats):
            if os.path.exists(f):
                os.unlink(f)


def generic(path):
    b = os.path.basename(path)
    b = b.split(ID0)[-1] if ID0 in b else b
    return re.sub(r"\d+", "#", b)


def suffix(path):
    b = os.path.basename(path)
    return b.split(ID0)[-1] if ID0 in b else b


def judge_plots(chk, t, tr, base, key, msg, require=None):
    """every *.plot anywhere in the run's directories is complete and has the fault-free content; returns the names"""
    names = tr.run.plots()
    for f in names:
        rep = P.plotcheck(t["plotcheck"], [f], noeval=True)[0]
        if not rep["decoded"] or rep["digest"] != base["digest"] or rep["size"] != base["size"] or os.path.getsize(f) != base["size"]:
            chk.violation(key, "%s: %s is incomplete or differs from the fault-free plot (%s)" % (msg, os.path.basename(f), rep["errors"][:2]), tr.repro())
        chk.observe("plots_verified")
    return names


def baseline(chk, t, **cfg):
    b = Traced(chk, t, tag="base", **cfg).go()
    try:
        if b.rc != 0 or len(b.run.plots()) != 1:
            chk.violation("baseline", "fault-free traced run failed: rc=%s plots=%d %s" % (b.rc, len(b.run.plots()), b.run.proc.output(300)), b.repro())
            return None
        rep = P.plotcheck(t["plotcheck"], b.run.plots(), noeval=True)[0]
        if not rep["decoded"]:
            chk.violation("baseline", "fault-free plot cannot be decoded", b.repro())
            return None
        groups = {}
        for n, call, ret, mode, p1, p2, inj in b.ops():
            if call == "open":
                call = "openw" if mode in ("w", "wt") else "open"
            elif call == "close":
                call = "closew" if mode == "w" else "close"
            name = p2 or p1
            groups.setdefault((call, generic(name)), []).append(suffix(name))
        chk.observe("baseline_ops", b.st["ops"])
        return {"digest": rep["digest"], "size": rep["size"], "groups": groups, "cfg": cfg}
    finally:
        b.clean()


ERR = {"write": ["ENOSPC", "EIO", "SHORT", "EDQUOT"], "read": ["EIO", "SHORT"], "open": ["EMFILE", "EIO"], "openw": ["EMFILE", "ENOSPC", "EACCES"],
       "closew": ["LOST", "EIO", "ENOSPC"], "close": ["EIO"], "rename": ["EIO", "EACCES", "EXDEV", "EROFS"], "unlink": ["EBUSY", "EACCES"], "seek": ["EIO"],
       "sync": ["EIO"], "truncate": ["EIO"]}


def campaign(chk, t, count, salt=0, only=None, cfgs=None):
    """single faults at sampled operations; every kind of operation on every kind of file is hit"""
    cfgs = cfgs or [dict(k=16, threads=4, u=16, dirs="one"), dict(k=16, threads=3, u=16, dirs="all"), dict(k=16, threads=6, u=16, dirs="final", extra=["-D"])]
    rng = random.Random(chk.seed * 31337 + salt)
    work = []
    for ci, cfg in enumerate(cfgs):
        base = baseline(chk, t, **cfg)
        if base is None:
            continue
        gs = sorted(g for g in base["groups"] if g[0] in ERR and (only is None or g[0] in only))
        per = max(1, count // len(cfgs))
        i = 0
        mine = []
        while len(mine) < per and gs:
            g = gs[i % len(gs)]
            rnd = i // len(gs)
            i += 1
            names = base["groups"][g]
            distinct = sorted(set(names))
            if rnd == 0:
                name = distinct[0] if len(distinct) == 1 else rng.choice(distinct)
                ordinal = rng.randrange(1, names.count(name) + 1)
            elif rnd == 1:
                name = names[-1]
                ordinal = names.count(name)
            elif rnd == 2:
                name, ordinal = names[0], 1
            else:
                name = rng.choice(names)
                ordinal = rng.randrange(1, names.count(name) + 1)
            errs = ERR[g[0]]
            if g[0] == "read" and ".plot" not in name:
                errs = ["EOF", "EIO", "SHORT"]      # a temporary file shorter than what was written to it
            err = errs[rnd % len(errs)]
            cnt = 1
            if err != "SHORT" and rng.random() < 0.15 and cfg["dirs"] == "one":
                cnt = 0
            mine.append((g, "%s:%s:%d:%d:%s" % (g[0], err, ordinal, cnt, name)))
        work += [(cfg, base, g, f, "%d_%d" % (ci, j)) for j, (g, f) in enumerate(mine)]

    def one(a):
        cfg, base, g, f, tag = a
        tr = Traced(chk, t, faults=[f], tag=tag, **cfg).go()
        try:
            fired = tr.fired()[0]
            msg = "fault %s (%s)" % (f, tr.run.desc["dirs"])
            if tr.run.hang:
                chk.violation("fault:hang:%s:%s" % g, "%s: the run stopped making progress instead of ending" % msg, tr.repro())
                return
            names = judge_plots(chk, t, tr, base, "fault:torn:%s:%s" % g, msg + " rc=%s" % tr.rc)
            if tr.rc == 0:
                dest = tr.run.fd if cfg["dirs"] in ("final", "all") else tr.run.t1
                if not any(os.path.dirname(x) == os.path.dirname(dest) for x in names):
                    chk.violation("fault:success:%s:%s" % g, "%s: the run ended with success but no plot was published" % msg, tr.repro())
                chk.observe("runs_harmless")
            else:
                chk.observe("runs_failed_cleanly")
                if tr.rc not in (134, 254, 1, 255) and tr.rc > 128 and tr.rc not in (134,):
                    chk.violation("fault:crash:%s:%s" % g, "%s: killed by signal %d" % (msg, tr.rc - 128), tr.repro()) if tr.rc - 128 in (11, 7, 8, 4) else None
            chk.observe("faults_fired", fired)
            chk.case((f, str(cfg)) if fired else None, {"fault": f, "config": cfg["dirs"], "rc": tr.rc, "plots": len(names)} if fired else None)
        finally:
            tr.clean()
    P.parallel(one, work)
