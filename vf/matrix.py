"""Configuration matrices of real plotter runs, shared by the plot level checks."""
import random, shutil
from . import build as B, plots as P

SPECIAL_IDS = ["00" * 32, "ff" * 32, "80" + "00" * 31, "00" * 31 + "01", "0123456789abcdef" * 4, "7f" + "ff" * 31]
# ids whose k16 tables grow (tables 5 or 6 keep more than 2^16 entries after pruning)
GROWN_IDS = ["35260731400afd645c1e6b812dc811b7b70d1bb7f44f11c88fd78f206b0cbbac", "8790b5ecbce73d889f93d4223fe76e3a7f711e1c58b932e0385274bd44ba674a",
             "0349fb66b8ef2bf460a7e2cd97c9d28ca33421937406021efbd25ffe7364f748", "98d54d701df92987b1e4f78a3a12bb1c5db9e5eca53e3a46265bc01f64df1bb0",
             "375f945c4e1f400031b13e1e41c26d31fd254e547ea8095ceb8ec4a0b171ed62"]


def tools(chk, extra=()):
    """build the plotter, the reader and the tools from the current tree"""
    r = B.build([B.plotter(), B.plotcheck(), B.perturb(), B.iotrace()] + list(extra))
    P.set_perturb(r["perturb.so"])
    chk.log("built")
    return r


def configs(rng, n, ks, us=(16, 16, 16, 32, 64), perturbed=0.6, heavy=False):
    out = []
    for i in range(n):
        k = ks[i % len(ks)]
        r = rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 31])
        u = rng.choice(us)
        c = dict(k=k, threads=r, u=u, v=rng.choice([None, None, 16, 32]),
                 rchunk=rng.choice([None, None, 100, 1000, 4097]), wchunk=rng.choice([None, None, 7, 64, 1000]),
                 dirs=rng.choice(["one", "two", "final", "all"]), K=rng.choice([None, None, 2, 3]))
        if k <= 16 and c["rchunk"] == 100:
            pass
        elif c["rchunk"] == 100 and k > 18:
            c["rchunk"] = 1000
        if rng.random() < perturbed:
            c["perturb"] = rng.randrange(1 << 30)
            c["pmode"] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
            if c["pmode"] in (1, 2, 6, 9) and k > 17:
                c["pmode"] = 0
        out.append(c)
    return out


def judge_run(chk, run):
    """common: the run itself must end with success and publish exactly the plots asked for"""
    if run.hang:
        chk.violation("run:hang", "plotter stopped making progress: %s" % run.desc, run.repro())
        return False
    if run.rc != 0:
        chk.violation("run:failed", "plotter exited with %d: %s: %s" % (run.rc, run.desc, run.proc.output(300)), run.repro())
        return False
    if len(run.plots()) != run.desc["n"]:
        chk.violation("run:noplot", "%d plots published instead of %d: %s" % (len(run.plots()), run.desc["n"], run.desc), run.repro())
        return False
    st = run.perturb_stats()
    if st:
        chk.observe("sync_points", st["ops"])
        chk.observe("injected_delays", st["delays"])
        with chk.lock:
            chk.__dict__.setdefault("fps", set()).add(st["fp"])
            chk.observed["distinct_schedules"] = len(chk.fps)
    chk.observe("plots_made", len(run.plots()))
    return True


def verify(chk, tool, run, ref=False, want=("sound", "layout", "complete"), files=None, label=""):
    """decode and judge the published plots; returns the reports"""
    reps = P.plotcheck(tool["plotcheck"], files or run.plots(), ref=ref)
    for r in reps:
        for e in r["errors"]:
            if e["key"].split(":")[0] in want:
                chk.violation(e["key"], "%s%s (%s)" % (label, e["msg"], run.desc), dict(run.repro(), report={k: r[k] for k in r if k != "errors"}, errors=r["errors"][:20]))
        if not r["decoded"] and "layout" not in want:
            chk.violation("undecodable", "%splot cannot be decoded: %s (%s)" % (label, r["errors"][:2], run.desc), run.repro())
        chk.observe("final_entries_checked", r["n7"])
        chk.observe("table_entries_checked", sum(r["counts"]))
    return reps
