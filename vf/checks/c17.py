"""C17: the entropy coders under generated blocks, tight buffers and hostile streams, with ASan and UBSan on exact-size buffers."""
from .. import build as B, plots as P
from . import phases
RULE = ("one case = one block coded (coder, data style, length, alphabet limit, table log), decoded back with every decoder, re-coded into smaller buffers and decoded after corruption; "
        "distinct by these; corrupted streams and headers are counted as evaluations")
ASSUMPTIONS = ["the single-stream and table level calls get tables made from the same data, and workspaces of the documented size", "block sizes within the documented limits (Huff0: 128 KiB)"]
MORE = ["huf_compress", "huf_decompress", "fseU16", "debug"]


def targets(san="asan"):
    return [B.harness("h_fse.cpp", name="h_fse_" + san, san=san, extra_src=B.FSE_SRC + [B.R("lib/FSE/lib", n + ".c") for n in MORE]).opt()]


def run(chk):
    t = B.build(targets() + [B.plotter(), B.plotcheck(), B.perturb()])
    P.set_perturb(t["perturb.so"])
    w = []
    for m, n in (("fse", chk.n(1100, 20000)), ("huf", chk.n(1400, 25000)), ("u16", chk.n(4000, 60000)), ("noise", chk.n(1500, 30000))):
        w += phases.jobs(chk, t, "h_fse_asan", ["--mode", m, "--rounds", n], 4 if m in ("fse", "huf") else 2)
    phases.run(chk, w)
    phases.whole_plots(chk, t, chk.n(3, 20), ks=(16,), salt=17, want=("complete", "sound", "layout"))
