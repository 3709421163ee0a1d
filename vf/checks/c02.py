"""C02 completeness: every published plot is compared with a brute-force forward propagation of the same id and k."""
import random
from .. import build as B, plots as P, matrix as M
RULE = ("one case = one plot made by the real plotter with its own (id, k, threads, buckets, chunk sizes, dirs, schedule); non-trivial = decoded and "
        "compared entry for entry (tables 2..7 and all proofs, as multisets) with the reference forward propagation; the same with the width of stored "
        "positions narrowed to that of small plots, so that the position limit of k32 and k34 is reached (non-trivial = the limit dropped something)")
ASSUMPTIONS = ["BLS/sodium/bech32 replaced by stand-ins; content for a fixed id does not depend on them",
               "k 16..20 (22 thorough): the reference holds all tables in memory"]


def run(chk):
    t = M.tools(chk, B.narrow(16) + ([] if chk.quick else B.narrow(18)))
    rng = random.Random(chk.seed * 1000 + 2)
    ks = [16, 17, 16, 18, 17, 16, 19, 18] if chk.quick else [16, 17, 18, 19, 20, 18, 21]
    cfgs = M.configs(rng, chk.n(40, 300), ks)
    cfgs.append(dict(k=chk.n(20, 22), threads=8, u=32))
    ids = M.SPECIAL_IDS + [P.rand_id(rng) for _ in cfgs]
    for i, g in enumerate(M.GROWN_IDS[:chk.n(3, 5)]):
        ids[len(cfgs)] = g
        cfgs.append(dict(k=16, threads=[2, 8, 5][i % 3], u=16, v=[None, 256, 32][i % 3]))
    many = len(cfgs)        # from here on: several plots by one process, each with an id of its own
    cfgs += [dict(k=[16, 17][j % 2], n=3, threads=[3, 8][j % 2], u=16, dirs=["final", "two", "all"][j % 3]) for j in range(chk.n(3, 12))]

    def one(a):
        i, c = a
        r = P.PlotRun(chk, t["chia_plot"], pid=ids[i] if i < many else None, tag=str(i), rand=i + 1, **c).run()
        try:
            if M.judge_run(chk, r):
                for rep in M.verify(chk, t, r, ref=True, want=("complete", "layout", "sound")):
                    chk.case((rep["id"], rep["k"], str(c)) if rep["ref"] else None, {"config": r.desc, "n7": rep["n7"], "counts": rep["counts"]} if i < 5 else None)
                    chk.observe("plots_compared_with_reference", 1 if rep["ref"] else 0)
        finally:
            r.clean()

    P.parallel(one, sorted(enumerate(cfgs), key=lambda a: -a[1]["k"]), workers=10)
    for bits in (16, 18):
        if "chia_plot_narrow%d" % bits in t:
            limit(chk, t, rng, bits)


def limit(chk, t, rng, bits):
    """position limit: what lies beyond the width of stored positions is dropped, everything else is there"""
    k = bits
    cases = (M.GROWN_IDS if k == 16 else []) + [P.rand_id(rng) for _ in range(chk.n(20, 100) if k == 16 else 20)]
    cfgs = M.configs(rng, len(cases), [16])

    def one(a):
        i, pid = a
        c = dict(cfgs[i], k=k)
        if k > 16 and c.get("pmode") in (1, 2, 6):
            c["pmode"] = 0
        r = P.PlotRun(chk, t["chia_plot_narrow%d" % bits], pid=pid, tag="n%d_%d" % (bits, i), rand=i + 1, **c).run()
        r.desc["position_bits"] = bits
        try:
            if not M.judge_run(chk, r):
                return
            for rep in P.plotcheck(t["plotcheck"], r.plots(), pmax=bits):
                if not rep["decoded"]:
                    chk.violation("limit:undecodable", "plot cannot be decoded: %s (%s)" % (rep["errors"][:2], r.desc), r.repro())
                    continue
                if rep["unlimited"]:
                    chk.observe("runs_without_the_narrow_limit")        # the limit is not where the build can narrow it
                    continue
                for e in rep["errors"]:
                    chk.violation("limit:" + e["key"], "positions of %d bits: %s (%s)" % (bits, e["msg"], r.desc), dict(r.repro(), errors=rep["errors"][:20]))
                hit = rep["ref"] and (rep["lost"] > 0 or rep["full7"] > 1 << bits)
                chk.case(("limit", pid, k, bits) if hit else None)
                if rep["ref"]:
                    chk.observe("matches_dropped_at_the_position_limit", rep["lost"])
                    chk.observe("final_entries_dropped_at_the_position_limit", max(0, rep["full7"] - (1 << bits)))
        finally:
            r.clean()

    P.parallel(one, list(enumerate(cases)), workers=10)
