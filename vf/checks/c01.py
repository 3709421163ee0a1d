"""C01 soundness: every published plot is decoded by an independent reader and re-evaluated bottom up."""
import random
from .. import plots as P, matrix as M, build as B
from . import kernels
RULE = ("one case = one plot made by the real plotter with its own (id, k, threads, buckets, chunks, dirs, schedule) or one group of "
        "evaluation/matching kernel calls at one k; non-trivial = the plot was decoded and had at least one final entry re-evaluated from its 64 x values")
ASSUMPTIONS = ["BLS/sodium/bech32 replaced by stand-ins (network-less sandbox); plot content does not depend on them for a fixed id",
               "whole plots are made at k 16..20 (22 thorough); larger k is covered at kernel level"]


def run(chk):
    t = M.tools(chk, kernels.targets())
    rng = random.Random(chk.seed)
    ks = [16, 17, 18, 16, 19, 18] if chk.quick else [16, 17, 18, 19, 20, 21]
    cfgs = M.configs(rng, chk.n(44, 320), ks)
    cfgs.append(dict(k=chk.n(20, 22), threads=8, u=64))
    cfgs.append(dict(k=chk.n(21, 23), threads=8, u=128))
    many = len(cfgs)        # from here on: several plots by one process, each with an id of its own
    cfgs += [dict(k=[16, 17][j % 2], n=3, threads=[4, 1, 8][j % 3], u=16, dirs=["all", "one", "final"][j % 3]) for j in range(chk.n(3, 12))]
    ids = M.SPECIAL_IDS + [P.rand_id(rng) for _ in cfgs]

    def one(a):
        i, c = a
        r = P.PlotRun(chk, t["chia_plot"], pid=ids[i] if i < many else None, tag=str(i), rand=i + 1, **c).run()
        try:
            if M.judge_run(chk, r):
                reps = M.verify(chk, t, r, want=("sound", "layout"))
                for rep in reps:
                    chk.case((rep["id"], rep["k"], str(c)) if rep["n7"] else None, {"config": r.desc, "n7": rep["n7"], "counts": rep["counts"], "digest": rep["digest"]} if i < 4 else None)
        finally:
            r.clean()

    P.parallel(one, sorted(enumerate(cfgs), key=lambda a: -a[1]["k"]))
    kernels.run(chk, t, ("eval", "match"))
