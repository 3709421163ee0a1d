"""C07: failing jobs injected into the real stage classes and readers; errors must surface, nothing may hang."""
from .. import build as B, plots as P
from . import c06
RULE = ("one case = one topology with one job that throws (stage, position, schedule), or a sort/table reader with a failing consumer, a short or a missing file; "
        "every wait, close and take afterwards must return, with an error; distinct by topology and fail point")
ASSUMPTIONS = ["a hang is called when every thread has slept without CPU use for 15 s", "work functions throw exceptions derived from std::exception, as all of the plotter's do"]


def run(chk):
    t = B.build(c06.targets() + [B.perturb(), B.plotter(), B.iotrace(), B.fastsleep(), B.plotcheck()])
    P.set_perturb(t["perturb.so"])
    c06.run_stage(chk, t, "fail", chk.n(8, 16), chk.n(18, 72), chk.n(220, 2000))
    whole(chk, t)


def whole(chk, t):
    """the plotter itself: a stage fails because a file operation of one of its jobs fails"""
    from .. import iof
    iof.campaign(chk, t, chk.n(24, 200), salt=7, only=("write", "read", "seek"), cfgs=[dict(k=16, threads=4, u=16, dirs="one"), dict(k=16, threads=9, u=16, dirs="two")])
