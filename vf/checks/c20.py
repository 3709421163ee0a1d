"""C20: used-marks under concurrency, counts and ranks, against plain counting; the same under ThreadSanitizer; the pruning phase that relies on them."""
from .. import build as B, plots as P
from . import phases
RULE = ("one case = one bitfield (size, marking threads, distribution of the marks over threads, density) with every position, sampled ranges and ranks compared with plain counting; distinct by these; "
        "for whole phases and plots one table set or plot")
ASSUMPTIONS = ["count starts at a multiple of 64 and ranks are asked for marked positions, as the declared preconditions require"]


def targets():
    return [B.harness("h_bitfield.cpp", name="h_bitfield_asan", san="asan").opt(), B.harness("h_bitfield.cpp", name="h_bitfield_tsan", san="tsan").opt(),
            B.harness("h_bitfield.cpp", name="h_bitfield", san="o2").opt()]


def run(chk):
    t = B.build(targets() + [phases.p2(), B.plotter(), B.plotcheck(), B.perturb()])
    P.set_perturb(t["perturb.so"])
    w = phases.jobs(chk, t, "h_bitfield_asan", ["--rounds", chk.n(120, 2500)], 3)
    w += phases.jobs(chk, t, "h_bitfield_tsan", ["--rounds", chk.n(50, 800), "--threads", 8], 2)
    w += phases.jobs(chk, t, "h_bitfield", ["--rounds", chk.n(300, 5000)], 2)
    w += phases.jobs(chk, t, "h_bitfield", ["--mode", "hammer", "--rounds", chk.n(4000, 60000), "--threads", 7], 2)
    w += phases.jobs(chk, t, "h_bitfield", ["--mode", "big", "--rounds", chk.n(2, 12)], 1)
    phases.run(chk, w)
    phases.run(chk, phases.jobs(chk, t, "h_p2", ["--cases", chk.n(8, 120)], chk.n(4, 8), chk.n(2, 4)))
    phases.whole_plots(chk, t, chk.n(4, 24), ks=(16, 17), salt=20, want=("complete", "sound"))
