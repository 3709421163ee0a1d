"""C13: phase 1 tables on disk against brute-force propagation; kernels against the definition at every k."""
from .. import build as B, plots as P
from . import phases, kernels
RULE = ("one case = one (id, k, threads, buckets, chunk sizes) run of the real phase1::compute with all seven tables re-evaluated and compared as multisets with the "
        "reference, or one table step of the real code on a sparse synthetic table at k 16..34, or one group of f1/fx/match kernel calls at one k against the definition")
ASSUMPTIONS = ["synthetic tables start with a non-empty first group, as every real table does", "whole tables at k 16..18 (19 thorough); the kernels at k 16..32 and 16..34"]


def run(chk):
    t = B.build([phases.p1(), phases.p1(k34=True), phases.p1s(), phases.p1s(k34=True), B.perturb(), B.plotter(), B.plotcheck()] + kernels.targets(opt=True))
    P.set_perturb(t["perturb.so"])
    w = phases.jobs(chk, t, "h_p1", ["--cases", chk.n(4, 30), "--kmax", chk.n(18, 19)], chk.n(5, 8), chk.n(3, 8))
    w += phases.jobs(chk, t, "h_p1_k34", ["--cases", chk.n(2, 20), "--kmax", 17], 2)
    w += phases.jobs(chk, t, "h_p1s", ["--cases", chk.n(90, 1500)], chk.n(3, 6), chk.n(1, 4))
    w += phases.jobs(chk, t, "h_p1s_k34", ["--cases", chk.n(90, 1500)], chk.n(2, 6))
    phases.run(chk, w)
    kernels.run(chk, t, ("eval", "match", "f1"))
    phases.whole_plots(chk, t, chk.n(5, 40), ks=(16, 17), salt=13)
