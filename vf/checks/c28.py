"""C28: several real plotter processes at once in the same directories."""
import os, random, time
from .. import build as B, plots as P, matrix as M
RULE = ("one case = one group of two to six processes of the real plotter sharing some or all of their working, stage and final directories, started together or staggered, with different ids (fixed or derived); "
        "each must end with success and its own verified plots, and together leave nothing else; distinct by configurations")
ASSUMPTIONS = ["the ids differ, as derived ids do"]


def run(chk):
    t = M.tools(chk, [B.slowio()])
    rng = random.Random(chk.seed * 281 + 28)
    groups = []
    for g in range(chk.n(26, 250)):
        m = rng.choice([2, 2, 3, 4, 6])
        same = rng.random() < 0.5
        c0 = None
        cs = []
        for j in range(m):
            c = dict(k=16 if rng.random() < 0.8 else 17, threads=rng.choice([1, 2, 3, 4]), u=rng.choice([16, 16, 32, 64]), v=rng.choice([None, 16, 32]), dirs=rng.choice(["one", "two", "final", "all"]),
                     n=rng.choice([1, 1, 2]), extra=[x for x in ("-D", "-w") if rng.random() < 0.25])
            if c["dirs"] in ("two", "final") and rng.random() < 0.2:
                c["extra"].append("-G")
            if same:
                c0 = c0 or c
                c = dict(c0)
            c["pid"] = P.rand_id(rng) if c["n"] == 1 and rng.random() < 0.5 else None
            cs.append((c, 0 if rng.random() < 0.5 else rng.random() * 0.6, rng.getrandbits(30)))
        groups.append((g, cs))

    def one(a):
        g, cs = a
        root = os.path.join(chk.scratch, "share%d" % g)
        for d in ("t1", "t2", "final", "stage"):
            os.makedirs(os.path.join(root, d))
        runs = []
        for j, (c, delay, s) in enumerate(cs):
            if delay:
                time.sleep(delay)
            env = {"VERIF_SLOWIO": str(s), "LD_PRELOAD": t["slowio.so"]} if s % 3 == 0 else {}
            r = P.PlotRun(chk, t["chia_plot"], rand=s + 1, root=root, env=env, **c)
            r.out = os.path.join(root, "out%d.txt" % j)
            r.proc = P.Proc(r.args, r.env, root, 40, 240, r.out)
            runs.append(r)
        plots = 0
        rep = None
        for r in runs:
            r.rc = r.proc.wait()
        try:
            rep = {"group": [dict(r.repro(), started_after=c[1]) for r, c in zip(runs, cs)]}
            for r in runs:
                if r.proc.timeout:
                    raise P.HarnessError("plotter still busy after %d s: %s" % (r.limit, r.desc))
                if r.hang:
                    chk.violation("hang", "one of %d runs sharing directories stopped making progress: %s" % (len(runs), r.desc), rep)
                elif r.rc != 0:
                    chk.violation("failed", "one of %d runs sharing directories gave exit %d: %s: %s" % (len(runs), r.rc, r.desc, r.proc.output(250)), rep)
                plots += r.desc["n"]
            if any(r.rc for r in runs):
                return
            got = runs[0].plots()
            rest = [f for f in runs[0].files() if not f.endswith(".plot")]
            if rest:
                chk.violation("left", "%d files left by %d runs sharing directories: %s" % (len(rest), len(runs), rest[:3]), rep)
            if len(got) != plots:
                chk.violation("count", "%d plots instead of %d from %d runs sharing directories" % (len(got), plots, len(runs)), rep)
            ids = []
            for q in P.plotcheck(t["plotcheck"], got, ref=g % 2 == 0):
                ids.append(q["id"])
                if q["errors"]:
                    chk.violation("wrong:" + q["errors"][0]["key"], "wrong plot from runs sharing directories: %s" % q["errors"][0]["msg"], rep)
            want = [r.pid for r in runs if r.pid]
            if [x for x in want if x not in ids]:
                chk.violation("ids", "the plot of a given id is missing", rep)
            chk.observe("processes", len(runs))
            chk.observe("plots_verified", len(got))
            chk.case(str([c[0] for c in cs]), {"processes": len(runs), "plots": len(got), "configs": [r.desc["dirs"] for r in runs]} if g < 8 else None)
        finally:
            runs[0].clean()
    P.parallel(one, groups, workers=4)
