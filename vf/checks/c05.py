"""C05: the real external sort under generated distributions, adders, readers, chunk sizes and schedules."""
from .. import build as B, plots as P
from . import phases
RULE = ("one case = one sort (entry type, key width, key distribution, number of entries, buckets, adding threads and caches, reading threads, chunk sizes, keep/reopen "
        "history); all delivered blocks are compared with the multiset added; distinct by all parameters")
ASSUMPTIONS = ["up to 60k entries per sort (360k thorough); bucket counts 2..128; one sort of more than 2^32 entries and one bucket file above 4 GiB, both sparse", "concurrent adders use one cache each, as documented"]


def targets(san="plain"):
    return [B.harness("h_sort.cpp", name="h_sort" + k + ("" if san == "plain" else "_" + san), k34=bool(k), san=san, extra_src=[B.R("src/settings.cpp")] + B.B3).opt() for k in ("", "_k34")]


def run(chk):
    t = B.build(targets() + [B.perturb(), B.plotter(), B.plotcheck()])
    P.set_perturb(t["perturb.so"])
    w = phases.jobs(chk, t, "h_sort", ["--cases", chk.n(220, 3000)], 6, 5)
    w += phases.jobs(chk, t, "h_sort_k34", ["--cases", chk.n(160, 2000)], 3, 2)
    w.insert(0, phases.jobs(chk, t, "h_sort", ["--mode", "huge"], 1)[0]) if "h_sort" in t else None
    phases.run(chk, w)
    phases.whole_plots(chk, t, chk.n(6, 40), ks=(16, 17), salt=5)
