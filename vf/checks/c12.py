"""C12: the real pruning phase on synthetic tables against a naive model, and inside whole plots."""
from .. import build as B, plots as P
from . import phases
RULE = ("one case = one synthetic set of seven tables (sizes, reference pattern, k, threads, buckets, chunk sizes) run through the real phase2::compute and "
        "compared entry for entry with a naive mark/rank model, or one whole plot whose tables are compared with the reference; distinct by all parameters")
ASSUMPTIONS = ["references respect the limits phase 1 guarantees (offset 1..1023, inside the table below)", "tables up to 120k entries (400k thorough), and first tables of nominally more than 2^32 or 2^33 entries with sparse references"]


def run(chk):
    t = B.build([phases.p2(), phases.p2(k34=True), B.perturb(), B.plotter(), B.plotcheck()])
    P.set_perturb(t["perturb.so"])
    w = phases.jobs(chk, t, "h_p2", ["--cases", chk.n(30, 400)], chk.n(6, 8), chk.n(4, 8))
    w += phases.jobs(chk, t, "h_p2_k34", ["--cases", chk.n(20, 300)], chk.n(2, 4), 1)
    w += phases.jobs(chk, t, "h_p2", ["--mode", "big", "--cases", chk.n(2, 10)], 1)
    w += phases.jobs(chk, t, "h_p2_k34", ["--mode", "big", "--cases", chk.n(1, 6)], 1)
    phases.run(chk, w)
    # what pruning kept must be exactly what the reference needs
    phases.whole_plots(chk, t, chk.n(10, 60), salt=0)
