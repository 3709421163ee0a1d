"""C10: SIGKILL before chosen file operations of real runs; every *.plot left behind must be complete.  Plus an online order monitor on the traces."""
import os, random
from .. import build as B, plots as P, iof
RULE = ("one case = one run of the real plotter killed before one file operation: all operations that create, rename or remove names of plot files, the operations around them, and "
        "a sample of all others, for each output configuration; or one traced run whose publication order is judged; distinct by configuration and kill point")
ASSUMPTIONS = ["process crash (SIGKILL), not power loss: data handed to the kernel before the kill survives", "k = 16 runs; the state of the disk changes only at traced operations"]
CFGS = [dict(k=16, threads=4, u=16, dirs="one"), dict(k=16, threads=3, u=16, dirs="all", rchunk=2000), dict(k=16, threads=5, u=16, dirs="final", extra=["-D"]),
        dict(k=16, threads=4, u=16, dirs="two", extra=["-G"]), dict(k=16, threads=4, u=16, dirs="all", extra=["-w"])]


def order(chk, tr, label):
    """trace monitor: a name ending in .plot only ever appears through rename (or link), after everything was written and closed"""
    published = {}
    for n, call, ret, mode, p1, p2, inj in sorted(tr.ops()):
        if ret < 0:
            continue
        if call == "open" and mode in ("w", "wt"):
            if p1.endswith(".plot") and mode == "wt":
                chk.violation("order:open", "%s: %s created or truncated under its final name" % (label, os.path.basename(p1)), tr.repro())
        elif call in ("write", "truncate", "fallocate", "copyrange", "sendfile"):
            if p1.endswith(".plot") or p1 in published:
                chk.violation("order:write", "%s: data written to %s after it was published as .plot" % (label, os.path.basename(p1)), tr.repro())
        elif call in ("rename", "link") and p2.endswith(".plot"):
            published[p1] = n
            chk.observe("publications")
        elif call == "rename":
            published.pop(p1, None)
        chk.observe("trace_events")


def run(chk):
    t = B.build([B.plotter(), B.plotcheck(), B.iotrace(), B.fastsleep()])
    rng = random.Random(chk.seed * 4242 + 10)
    work = []
    for ci, cfg in enumerate(CFGS):
        ex = ["rename:EXDEV:1:1:/final/"] if cfg["dirs"] == "all" else []
        base = iof.baseline(chk, t, **cfg)
        if base is None:
            continue
        tr = iof.Traced(chk, t, faults=ex, tag="o%d" % ci, **cfg).go()
        try:
            order(chk, tr, "config %d" % ci)
            chk.case(("order", ci))
            ops = sorted(tr.ops())
            total = tr.st["ops"]
        finally:
            tr.clean()
        # all name operations on plot files, and the writes/reads around them
        seen = {}
        names = []
        for n, call, ret, mode, p1, p2, inj in ops:
            c = call
            f = p2 or p1
            if ".plot" not in os.path.basename(f):
                continue
            key = (c, iof.suffix(f), os.path.basename(os.path.dirname(f)))
            seen[key] = seen.get(key, 0) + 1
            if c in ("rename", "link", "unlink", "open", "close", "truncate") or (n > total - 40):
                names.append((key, seen[key]))
        for (c, suf, d), i in names:
            i2 = i - (1 if ex and c == "rename" and d == "final" else 0)
            if i2 >= 1:
                work.append((cfg, base, ex + ["%s:KILL:%d:1:%s" % (c, i2, "/%s/plot" % d if d in ("final", "stage", "t1", "t2") else suf)], None, "%d_n%d" % (ci, len(work))))
        for n in [total - i for i in range(0, 60, chk.n(3, 1))] + [rng.randrange(1, total) for _ in range(chk.n(12, 150))]:
            if n > 0:
                work.append((cfg, base, ex, n, "%d_k%d" % (ci, n)))
    if chk.quick and len(work) > 300:
        nm = [w for w in work if w[3] is None]
        ot = [w for w in work if w[3] is not None]
        work = rng.sample(nm, min(len(nm), 150)) + rng.sample(ot, min(len(ot), 150))

    def one(a):
        cfg, base, faults, kill, tag = a
        tr = iof.Traced(chk, t, faults=faults, kill=kill, tag=tag, **cfg).go()
        try:
            if tr.run.hang:
                chk.violation("kill:hang", "hang (fault %s)" % faults, tr.repro())
                return
            names = iof.judge_plots(chk, t, tr, base, "kill:torn", "killed (%s)" % (kill or faults[-1:]))
            killed = tr.rc == 137
            if not killed and tr.rc != 0:
                chk.violation("kill:failed", "run ended with %s although only a kill was injected" % tr.rc, tr.repro())
            chk.observe("runs_killed", int(killed))
            chk.observe("killed_with_plot_present", int(killed and bool(names)))
            chk.case((str(cfg), str(faults), kill) if killed else None, {"config": cfg["dirs"], "kill": kill or faults[-1], "plots": len(names), "files": len(tr.run.files())})
        finally:
            tr.clean()
    P.parallel(one, work)
