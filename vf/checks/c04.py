"""C04: every published plot is decoded by a reader written from the v1.0 format alone."""
import random, re
from .. import plots as P, matrix as M
from . import phases
RULE = ("one case = one published plot (id, memo kind, k, configuration) or one synthetic table set run through the real phases 3+4 at large k; "
        "non-trivial = the complete file was walked: header, pointers, every park of every table, every padding byte")
ASSUMPTIONS = ["golden entropy tables were computed once from the format's R values and are part of this check",
               "an all-but-last C3 park with 1..3 entries has no representation in the format (see KNOWN_FINDINGS C16); such a tail is skipped here"]


def run(chk):
    t = M.tools(chk, [phases.p34(), phases.p34(k34=True)])
    rng = random.Random(chk.seed * 1000 + 4)
    cfgs = M.configs(rng, chk.n(40, 300), [16, 17, 18, 16, 19, 17] if chk.quick else [16, 17, 18, 19, 20, 21], perturbed=0.3)
    cfgs.append(dict(k=20, threads=8, u=32))
    if not chk.quick:
        cfgs.append(dict(k=22, threads=8, u=64))

    def one(a):
        i, c = a
        kw = {}
        if i % 3 == 1:
            kw["contract"] = P.contract(i * 7919 + chk.seed)
        pid = None if i % 4 == 3 else (M.SPECIAL_IDS + [None])[i % 7] if i < 7 else P.rand_id(random.Random(chk.seed * 131 + i))
        r = P.PlotRun(chk, t["chia_plot"], pid=pid, tag=str(i), rand=i + 1, **dict(c, **kw)).run()
        try:
            if M.judge_run(chk, r):
                out = r.proc.output(100000)
                for rep in M.verify(chk, t, r, want=("layout",)):
                    chk.case((rep["id"], rep["k"], str(c)) if rep["decoded"] else None, {"config": r.desc, "size": rep["size"], "memo_bytes": len(rep["memo"]) // 2, "n7": rep["n7"]} if i < 4 else None)
                    m = re.search(r"final plot size is (\d+) bytes", out)
                    if m and int(m.group(1)) != rep["size"] and not rep["c3_tail"]:
                        chk.violation("layout:reported", "reported size %s, file has %d" % (m.group(1), rep["size"]), r.repro())
                    if rep["k"] != c["k"]:
                        chk.violation("layout:k", "header has k=%d, asked for %d" % (rep["k"], c["k"]), r.repro())
                    if pid and rep["id"] != pid:
                        chk.violation("layout:id", "header has another id than asked for", r.repro())
                    want = 112 if kw else 128
                    if len(rep["memo"]) // 2 != want:
                        chk.violation("layout:memo", "memo has %d bytes, expected %d" % (len(rep["memo"]) // 2, want), r.repro())
                    chk.observe("bytes_walked", rep["size"])
        finally:
            r.clean()

    P.parallel(one, sorted(enumerate(cfgs), key=lambda a: -a[1]["k"]), workers=10)
    phases.run_full(chk, t)
