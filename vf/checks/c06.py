"""C06: event log of the real stage classes under generated topologies, work times and schedules."""
from .. import build as B, harness as H, plots as P
from . import phases
RULE = ("one case = one topology (threads, pools, chains of up to four stages), item count and work pattern, run to its end under one schedule; every hand-in, execution, "
        "delivery, wait and close is an event judged online; distinct by topology and counts")
ASSUMPTIONS = ["interleavings are sampled: nine perturbation modes, each with its own seed per process", "a pool is fed by one thread, as documented"]


def targets(san="plain"):
    return [B.harness("h_thread.cpp", name="h_thread" + ("" if san == "plain" else "_" + san), san=san, extra_src=[B.R("src/settings.cpp")]).opt()]


def jobs(chk, t, mode, plain, pert, cases):
    out = []
    for i in range(plain + pert if "h_thread" in t else 0):
        env = {}
        if i >= plain:
            env = {"LD_PRELOAD": P._rl["perturb"], "VERIF_PERTURB": str(chk.seed * 1000 + i), "VERIF_PERTURB_MODE": str(i % 10), "VERIF_PERTURB_BUDGET": "30"}
        out.append((i, ["--mode", mode, "--part", i, "--cases", cases if i < plain else cases // 5], env))
    return out


def run_stage(chk, t, mode, plain, pert, cases):
    P.parallel(lambda w: H.run(chk, t["h_thread"], w[1], env=w[2], key="mode%s" % w[2].get("VERIF_PERTURB_MODE", "-"), stall=15, limit=500), jobs(chk, t, mode, plain, pert, cases), 10)


def run(chk):
    t = B.build(targets() + [B.perturb(), B.plotter(), B.plotcheck()])
    P.set_perturb(t["perturb.so"])
    run_stage(chk, t, "ok", chk.n(6, 16), chk.n(18, 72), chk.n(150, 1200))
    # the stages as the phases use them: whole plots under perturbation, nothing lost or duplicated
    phases.whole_plots(chk, t, chk.n(8, 60), ks=(16, 16, 17), perturbed=1.0, salt=6)
