"""C14: round trips of every record type and of table files, with canaries, in both builds."""
from .. import build as B, plots as P
from . import phases
RULE = ("one case = one (record type, field, significant bits) class of round trips with garbage before and around the record, or one table file (type, entries, block, threads, chunk) written and "
        "read back twice; distinct by those; a sparse table file above 4 GiB is read back")
ASSUMPTIONS = ["field widths are those documented in the record declarations (38/40 bit y, 32/34 bit x, 32/35 bit position, 10 bit offset, 63/67 bit line point)"]


def targets(san="plain"):
    return [B.harness("h_codec.cpp", name="h_codec" + k + ("" if san == "plain" else "_" + san), k34=bool(k), san=san, extra_src=[B.R("src/settings.cpp")] + B.B3).opt() for k in ("", "_k34")]


def run(chk):
    t = B.build(targets() + [B.perturb(), B.plotter(), B.plotcheck()])
    P.set_perturb(t["perturb.so"])
    a = ["--rounds", chk.n(30000, 500000), "--tables", chk.n(60, 600)]
    w = phases.jobs(chk, t, "h_codec", a + ["--sparse", 1], 1)
    w += phases.jobs(chk, t, "h_codec", a, chk.n(3, 8), 2)
    w += phases.jobs(chk, t, "h_codec_k34", a, chk.n(3, 8), 1)
    phases.run(chk, w)
    phases.whole_plots(chk, t, chk.n(4, 40), ks=(16, 17), salt=14)
