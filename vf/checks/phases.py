"""shared: single phases of the real plotter on synthetic input, against naive models"""
import os
from .. import build as B, harness as H, plots as P


def _h(src, name, k34=False, san="plain"):
    s = [B.R("src/settings.cpp")] + B.B3
    if src.startswith("h_p1"):
        s.append(B.R("lib/chacha8.c"))
    return B.harness(src, name=name + ("_k34" if k34 else "") + ("" if san == "plain" else "_" + san), extra_src=s, fse=src in ("h_p34.cpp", "h_stage2.cpp", "h_merge.cpp"), k34=k34, san=san).opt()


def p1(**kw):
    return _h("h_p1.cpp", "h_p1", **kw)


def p1s(**kw):
    return _h("h_p1s.cpp", "h_p1s", **kw)


def p2(**kw):
    return _h("h_p2.cpp", "h_p2", **kw)


def p34(**kw):
    return _h("h_p34.cpp", "h_p34", **kw)


def stage2(**kw):
    return _h("h_stage2.cpp", "h_stage2", **kw)


def merge(**kw):
    return _h("h_merge.cpp", "h_merge", **kw)


def jobs(chk, t, name, args, parts, perturbed=0, modes=range(10), budget=4):
    """(binary, args, env) for `parts` independent processes, the last `perturbed` of them under schedule perturbation"""
    out = []
    if name not in t:
        return out
    for i in range(parts + perturbed):
        env = {}
        if i >= parts:
            env = {"LD_PRELOAD": P._rl["perturb"], "VERIF_PERTURB": str(chk.seed * 1000 + i), "VERIF_PERTURB_MODE": str(modes[(chk.seed + i) % len(modes)]), "VERIF_PERTURB_BUDGET": str(budget)}
        out.append((t[name], list(args) + ["--part", i], env, name))
    return out


def run(chk, work, workers=8, limit=600):
    def one(w):
        b, a, env, key = w
        return H.run(chk, b, a, env=env, limit=limit)
    return P.parallel(one, work, workers)


def run_full(chk, t):
    w = jobs(chk, t, "h_p34", ["--mode", "full", "--cases", chk.n(10, 120)], chk.n(4, 8), chk.n(1, 4))
    w += jobs(chk, t, "h_p34_k34", ["--mode", "full", "--cases", chk.n(8, 100)], chk.n(2, 6))
    run(chk, w)


def whole_plots(chk, t, n, ks=(16, 17, 18), want=("complete", "sound"), salt=0, **kw):
    """whole plots of the real plotter compared table for table with the reference"""
    import random
    from .. import matrix as M
    rng = random.Random(chk.seed * 1000 + 12 + salt)
    cfgs = M.configs(rng, n, list(ks), **kw)

    def one(a):
        i, c = a
        r = P.PlotRun(chk, t["chia_plot"], pid=P.rand_id(random.Random(chk.seed * 77 + i + salt * 1000)), tag=str(i), rand=i + 1, **c).run()
        try:
            if M.judge_run(chk, r):
                for rep in M.verify(chk, t, r, ref=True, want=want):
                    chk.case((rep["id"], str(c)))
        finally:
            r.clean()
    P.parallel(one, list(enumerate(cfgs)))
