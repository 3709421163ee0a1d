"""C18: the keystream and the table-1 function against an independent ChaCha8."""
from .. import build as B, plots as P
from . import phases, kernels
RULE = ("one case = one request (key, key length, iv, block position, block count) compared byte for byte with an independent ChaCha8, or one table-1 batch (k, first x, count) compared value for value; "
        "distinct by position, count, key form or k")
ASSUMPTIONS = ["little-endian host, as the code assumes"]


def targets(san="asan"):
    # the cipher reads words from byte buffers by design; alignment is not what is decided here
    return [B.harness("h_chacha.cpp", name="h_chacha_" + san, san=san, extra_src=[B.R("lib/chacha8.c")], flags=["-fno-sanitize=alignment"] if san == "asan" else []).opt()]


def run(chk):
    t = B.build(targets() + kernels.targets() + [B.plotter(), B.plotcheck(), B.perturb()])
    P.set_perturb(t["perturb.so"])
    phases.run(chk, phases.jobs(chk, t, "h_chacha_asan", ["--rounds", chk.n(3000, 60000)], 6))
    kernels.run(chk, t, ("f1",))
    phases.whole_plots(chk, t, chk.n(6, 30), ks=(16, 17, 18), salt=18, want=("complete", "sound"))
