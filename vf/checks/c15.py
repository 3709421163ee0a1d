"""C15: the real compression phase on synthetic pruned tables, decoded by the independent reader."""
from .. import build as B, plots as P
from . import phases
RULE = ("one case = one synthetic set of pruned tables (sizes, k up to 32/34, threads, buckets, chunks, schedule) run through the real phase3::compute, one pair of tables run through the merge (phase3::compute_stage1) under long delays around its hand-overs, or one "
        "line point sequence over the full 2k-bit range run through the park writer at a chosen file offset; every decoded line point, the renumbering and the final positions are compared with the model")
ASSUMPTIONS = ["line point gaps have the distribution of real plots (the fixed park size admits no other)", "tables up to 50k entries (200k thorough)"]


def run(chk):
    t = B.build([phases.p34(), phases.p34(k34=True), phases.stage2(), phases.stage2(k34=True), phases.merge(), phases.merge(k34=True), B.perturb(), B.plotter(), B.plotcheck()])
    P.set_perturb(t["perturb.so"])
    w = phases.jobs(chk, t, "h_p34", ["--mode", "p3", "--cases", chk.n(18, 200)], chk.n(4, 8), chk.n(6, 12))
    w += phases.jobs(chk, t, "h_p34_k34", ["--mode", "p3", "--cases", chk.n(12, 120)], chk.n(2, 6), 1)
    w += phases.jobs(chk, t, "h_stage2", ["--cases", chk.n(40, 500)], chk.n(2, 6), 1)
    w += phases.jobs(chk, t, "h_stage2_k34", ["--cases", chk.n(40, 500)], chk.n(2, 6))
    w += phases.jobs(chk, t, "h_merge", ["--cases", chk.n(150, 1500)], 1, chk.n(8, 24), modes=(6, 4, 6, 4, 9, 4, 6, 3, 2, 7), budget=400)
    w += phases.jobs(chk, t, "h_merge_k34", ["--cases", chk.n(100, 1000)], 1, chk.n(2, 6), modes=(6, 4, 9), budget=400)
    phases.run(chk, w)
    import random
    from .. import matrix as M
    rng = random.Random(chk.seed * 1000 + 15)

    def one(a):
        i, c = a
        r = P.PlotRun(chk, t["chia_plot"], pid=P.rand_id(random.Random(chk.seed * 79 + i)), tag=str(i), rand=i + 1, **c).run()
        try:
            if M.judge_run(chk, r):
                for rep in M.verify(chk, t, r, ref=True, want=("complete", "sound", "layout")):
                    chk.case((rep["id"], str(c)))
        finally:
            r.clean()
    P.parallel(one, list(enumerate(M.configs(rng, chk.n(8, 60), [16, 17, 18]))))
