"""C26: both builds plot the same ids and must agree; the wide build's records, kernels and phases run at k 33 and 34 against the models."""
import random
from .. import build as B, plots as P, matrix as M
from . import phases, kernels, c05, c14
RULE = ("one case = one id plotted by both builds under different configurations and compared by canonical digest (one of them also against the reference plotter), or one synthetic table, sort, record or kernel case of the wide build; "
        "distinct by id or by case parameters")
ASSUMPTIONS = ["whole plots at k 16..20; k 33 and 34 only as records, kernels, sorts and phases on synthetic tables", "x86-64"]


def run(chk):
    wide = [phases.p34(k34=True), phases.p2(k34=True), phases.stage2(k34=True), phases.p1(k34=True), phases.p1s(k34=True)] + [x for x in c05.targets() + c14.targets() + kernels.targets() if "k34" in x.name]
    t = M.tools(chk, [B.plotter(k34=True)] + wide)
    rng = random.Random(chk.seed * 19 + 26)
    pairs = []
    for i in range(chk.n(22, 160)):
        k = [16, 17, 16, 18, 16, 19][i % 6]
        a, b = M.configs(rng, 2, [k], perturbed=0.3)
        pairs.append((i, P.rand_id(rng) if i >= len(M.SPECIAL_IDS) else M.SPECIAL_IDS[i], a, b))
    pairs.append((900, P.rand_id(rng), dict(k=chk.n(20, 22), threads=8, u=64), dict(k=chk.n(20, 22), threads=5, u=128)))

    def one(p):
        i, pid, a, b = p
        got = []
        for name, c in (("chia_plot", a), ("chia_plot_k34", b)):
            r = P.PlotRun(chk, t[name], pid=pid, tag="%d%s" % (i, name[-3:]), rand=i + 1, **c).run()
            try:
                if not M.judge_run(chk, r):
                    return
                wide_ = name != "chia_plot"
                rep = (M.verify(chk, t, r, ref=i % 3 == 0 and c["k"] <= 18, want=("sound", "layout", "complete"), label="wide build: ") if wide_ else P.plotcheck(t["plotcheck"], r.plots(), noeval=True))[0]
                got.append((rep["decoded"], rep["digest"], rep["size"], r.desc, r.repro()))
            finally:
                r.clean()
        chk.observe("pairs_compared")
        chk.case(pid, {"id": pid, "standard": got[0][3], "wide": got[1][3], "digest": got[0][1]} if i < 4 else None)
        if got[0][:3] != got[1][:3]:
            chk.violation("differs", "id %s k %d: standard build %s, wide build %s (%s)" % (pid, a["k"], got[0][1:3], got[1][1:3], got[1][3]), {"standard": got[0][4], "wide": got[1][4]})
    P.parallel(one, sorted(pairs, key=lambda p: -p[2]["k"]))
    w = phases.jobs(chk, t, "h_p34_k34", ["--mode", "full", "--cases", chk.n(6, 100)], chk.n(2, 6), 1)
    w += phases.jobs(chk, t, "h_p34_k34", ["--mode", "p3", "--cases", chk.n(8, 100)], 1)
    w += phases.jobs(chk, t, "h_p2_k34", ["--cases", chk.n(20, 300)], 1)
    w += phases.jobs(chk, t, "h_stage2_k34", ["--cases", chk.n(30, 500)], 1)
    w += phases.jobs(chk, t, "h_sort_k34", ["--cases", chk.n(120, 2000)], 1)
    w += phases.jobs(chk, t, "h_codec_k34", ["--rounds", chk.n(12, 150)], 1)
    w += phases.jobs(chk, t, "h_p1_k34", ["--cases", chk.n(2, 20), "--kmax", 17], 1)
    w += phases.jobs(chk, t, "h_p1s_k34", ["--cases", chk.n(120, 1500)], 2)
    phases.run(chk, w)
    t.pop("h_kernel", None)
    kernels.run(chk, t, ("eval", "match"))
