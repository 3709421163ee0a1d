"""C19: bit containers and integer codecs against exact bit strings, under ASan and UBSan."""
from .. import build as B, plots as P
from . import phases
RULE = ("one case = one operation (append, concatenate, slice, compare, serialise, construct, integer codec, bit field access) at one (width, alignment) pair, compared with a bit string model; "
        "distinct by operation, width and alignment modulo 64")
ASSUMPTIONS = ["values fit the stated width and widths are positive, as the declared preconditions require", "the shift operators of the container are unused and not part of the property"]


def targets(san="asan"):
    return [B.harness("h_bits.cpp", name="h_bits_" + san, san=san).opt()]


def run(chk):
    t = B.build(targets() + [B.plotter(), B.plotcheck(), B.perturb()])
    P.set_perturb(t["perturb.so"])
    phases.run(chk, phases.jobs(chk, t, "h_bits_asan", ["--rounds", chk.n(150, 2500)], 8))
    phases.whole_plots(chk, t, chk.n(3, 20), ks=(16,), salt=19, want=("complete", "sound", "layout"))
