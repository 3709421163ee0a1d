"""C08: one failing or shortened file operation per run of the real plotter; exit status and published files are judged."""
from .. import build as B, plots as P, iof
RULE = ("one case = one run of the real plotter in which one operation (class, file, ordinal, errno) fails, is cut short, or fails from there on; every kind of operation on every "
        "kind of file occurs; non-trivial = the fault fired; distinct by fault and configuration")
ASSUMPTIONS = ["k = 16 runs; single faults (or one persistent one)", "the five minute pause between copy attempts is shortened by an interposed sleep",
               "a failed close releases the descriptor, as on Linux"]


def run(chk):
    t = B.build([B.plotter(), B.plotcheck(), B.iotrace(), B.fastsleep()])
    iof.campaign(chk, t, chk.n(330, 4000), salt=8)
