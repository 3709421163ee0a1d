"""C16: the real checkpoint phase on synthetic sorted sequences; P7, C1, C2, C3 and the pointers decoded independently."""
from .. import build as B, plots as P
from . import phases
RULE = ("one case = one (k, number of entries, f7 sequence, file offset, threads, buckets, chunks) run through the real phase4::compute; every P7 position, C1, C2, C3 "
        "value and pointer is compared with the input sequence; one case has more than 10^8 entries so that C2 has several entries")
ASSUMPTIONS = ["f7 differences are distributed as in real plots (the fixed C3 park size admits no other)"]


def run(chk):
    t = B.build([phases.p34(), phases.p34(k34=True), B.perturb(), B.plotter(), B.plotcheck()])
    P.set_perturb(t["perturb.so"])
    w = phases.jobs(chk, t, "h_p34", ["--mode", "p4", "--cases", 1, "--big", 100020004], 1)
    if not chk.quick:
        w += phases.jobs(chk, t, "h_p34_k34", ["--mode", "p4", "--cases", 1, "--big", 200000000], 1)
    w += phases.jobs(chk, t, "h_p34", ["--mode", "p4", "--cases", chk.n(120, 1500)], chk.n(3, 8), chk.n(4, 10))
    w += phases.jobs(chk, t, "h_p34_k34", ["--mode", "p4", "--cases", chk.n(80, 1000)], chk.n(2, 6), 1)
    phases.run(chk, w)
    import random
    from .. import matrix as M
    rng = random.Random(chk.seed * 1000 + 16)

    def one(a):
        i, c = a
        r = P.PlotRun(chk, t["chia_plot"], pid=P.rand_id(random.Random(chk.seed * 83 + i)), tag=str(i), rand=i + 1, **c).run()
        try:
            if M.judge_run(chk, r):
                for rep in M.verify(chk, t, r, want=("sound", "layout")):
                    chk.case((rep["id"], str(c)))
        finally:
            r.clean()
    P.parallel(one, list(enumerate(M.configs(rng, chk.n(8, 60), [16, 17, 18]))))
