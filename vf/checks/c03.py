"""C03: the same id and memo plotted under many configurations and schedules must give the same content."""
import random
from .. import build as B, plots as P, matrix as M
from . import phases
RULE = ("one case = one pair (reference configuration, other configuration/schedule) of the same id, k and memo; non-trivial = both plots decoded and "
        "their canonical digests (all bytes outside P7, P7 as (f7, position) multiset, file size) compared; or one pair of tables merged under schedule perturbation, the result compared with the model")
ASSUMPTIONS = ["interleavings are sampled (ten perturbation modes), not enumerated"]


def run(chk):
    t = M.tools(chk)
    rng = random.Random(chk.seed * 1000 + 3)
    groups = []
    for g in range(chk.n(4, 16)):
        k = [16, 17, 18, 16][g % 4] if chk.quick else [16, 17, 18, 19][g % 4]
        n = chk.n({16: 16, 17: 10, 18: 8}[k] if chk.quick else 0, 24)
        cf = [dict(k=k, threads=1, u=16, dirs="one")] + M.configs(rng, n, [k], us=(16, 16, 32, 64, 5), perturbed=0.75)
        cf.append(dict(k=k, threads=rng.choice([48, 64]), u=16, v=32, dirs="all"))
        if g == 0:
            # every accepted bucket count of either half
            cf += [dict(k=k, threads=rng.choice([2, 3, 4, 6]), u=u, v=v) for u, v in ((128, 64), (256, 16), (512, 32), (1024, 16), (2048, 16), (16, 128), (32, 256))]
            cf.append(dict(k=k, threads=6, u=16, dirs="two", extra=["-G"]))
            cf.append(dict(k=k, threads=6, u=16, dirs="final", extra=["-D"]))
            cf.append(dict(k=k, threads=6, u=16, dirs="all", extra=["-D", "-w"]))
        if k == 18 and g < 4:
            cf += [dict(k=k, threads=4, u=16, v=512), dict(k=k, threads=3, u=512, v=16)]
        groups.append((g, P.rand_id(rng), cf))
    res = {}

    def one(a):
        g, pid, i, c = a
        r = P.PlotRun(chk, t["chia_plot"], pid=pid, tag="%d_%d" % (g, i), rand=g + 1, **c).run()
        try:
            if M.judge_run(chk, r):
                rep = P.plotcheck(t["plotcheck"], r.plots(), noeval=True)[0]
                if not rep["decoded"]:
                    chk.violation("undecodable", "plot cannot be decoded (%s): %s" % (r.desc, rep["errors"][:2]), r.repro())
                else:
                    with chk.lock:
                        res[(g, i)] = (rep["digest"], rep["size"], rep["n7"], r.desc, r.repro())
        finally:
            r.clean()

    work = [(g, pid, i, c) for g, pid, cf in groups for i, c in enumerate(cf)]
    P.parallel(one, sorted(work, key=lambda a: -max(a[3]["u"], 4 * (a[3].get("v") or 0)) if max(a[3]["u"], a[3].get("v") or 0) > 100 else -a[3]["k"]), workers=12)
    for g, pid, cf in groups:
        have = [(i, res[(g, i)]) for i in range(len(cf)) if (g, i) in res]
        if len(have) < 2:
            continue
        # majority is the reference: the odd one out is what is reported
        tally = {}
        for i, h in have:
            tally[h[:3]] = tally.get(h[:3], 0) + 1
        best = max(tally.items(), key=lambda kv: kv[1])[0]
        for i, h in have:
            chk.case((pid, i), {"id": pid, "config": h[3], "digest": h[0], "size": h[1]} if i in (1, 2) else None)
            if h[:3] != best:
                chk.violation("differs", "same id and k, different content: %s has (digest, size, n7)=%s, the others %s" % (h[3], h[:3], best), h[4])
        chk.observe("distinct_contents_per_id_max", 0)
        chk.observe_max("distinct_contents_per_id_max", len(tally))
    history(chk, t, rng)
    # the thread to thread hand-over of the compression phase under long delays
    h = B.build([phases.merge()])
    phases.run(chk, phases.jobs(chk, h, "h_merge", ["--cases", chk.n(80, 1000)], 0, chk.n(8, 24), modes=(6, 4, 9, 4), budget=400))


def history(chk, t, rng):
    """a plot made as the second or third of a run has the same tables as one made on its own"""
    def one(j):
        r = P.PlotRun(chk, t["chia_plot"], k=[16, 17][j % 2], n=3, threads=[4, 2, 8][j % 3], u=16, dirs=["one", "all", "final"][j % 3], tag="h%d" % j, rand=900 + j).run()
        try:
            if not M.judge_run(chk, r):
                return
            for q, rep in enumerate(P.plotcheck(t["plotcheck"], r.plots(), noeval=True)):
                s = P.PlotRun(chk, t["chia_plot"], k=rep["k"], pid=rep["id"], threads=3, u=32, tag="h%d_%d" % (j, q), rand=5).run()
                try:
                    if not M.judge_run(chk, s):
                        continue
                    alone = P.plotcheck(t["plotcheck"], s.plots(), noeval=True)[0]
                    chk.case(("history", rep["id"]) if rep["decoded"] and alone["decoded"] else None)
                    if rep["digest_body"] != alone["digest_body"]:
                        chk.violation("history", "plot %s of a run of three differs from the same plot made alone (%s)" % (rep["id"], r.desc), r.repro())
                finally:
                    s.clean()
        finally:
            r.clean()

    P.parallel(one, range(chk.n(4, 16)))
