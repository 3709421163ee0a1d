"""C21: AddressSanitizer, UBSan, library assertions and valgrind over whole plots, hostile command lines and all harnesses."""
import random
from .. import build as B, plots as P, matrix as M, harness as H, san, memcheck
from . import phases, c05, c14, c17, c18, c19
RULE = ("one case = one process of the real code (whole plot by configuration, command line, or harness by its arguments) observed to its end under instrumentation; distinct by arguments; "
        "inputs inside harnesses count as evaluations")
ASSUMPTIONS = ["only executed paths are judged", "undefined padding bytes written to temporary records are not a memory error", "the crypto libraries are stand-ins and not judged"]


def targets():
    return [B.plotter(san="asanp"), B.plotter(san="asanp", k34=True, name="chia_plot_k34_asanp")]


def run(chk):
    opt = [phases.p34(san="asan"), phases.p2(san="asan"), phases.stage2(san="asan"), phases.p1s(san="asan")] + c05.targets("asan")[:1] + c14.targets("asan") + c17.targets() + c18.targets() + c19.targets()
    t = B.build(targets() + opt + [B.plotter(), B.slowio()])
    rng = random.Random(chk.seed * 31 + 21)
    work = []
    # whole plots
    n = chk.n(14, 120)
    cfgs = M.configs(rng, n, [16, 16, 17, 16, 18, 16], perturbed=0)
    for i, c in enumerate(cfgs):
        c["contract"] = P.contract(rng.randrange(99)) if rng.random() < 0.4 else None
        c["extra"] = [x for x in ("-D", "-w", "-Z") if rng.random() < 0.25]
        if c["dirs"] != "all" and rng.random() < 0.3:
            c["extra"].append("-G")
        c["n"] = rng.choice([1, 1, 1, 2])
        c["pid"] = P.rand_id(rng) if rng.random() < 0.5 and c["n"] == 1 else None
        if i < len(M.SPECIAL_IDS) // 2:
            c["pid"], c["n"] = M.SPECIAL_IDS[(chk.seed + i) % len(M.SPECIAL_IDS)], 1
        if rng.random() < 0.3:
            c["extra"] += ["-x", rng.choice(["9699", "11337", "1"])]
        work.append(("plot", t["chia_plot_k34_asanp" if i % 3 == 2 else "chia_plot_asanp"], c, i))
    # the same binary without instrumentation under valgrind: decisions on undefined values
    for i in range(chk.n(2, 6)):
        work.append(("memcheck", t["chia_plot"], dict(k=16 + (i > 3), threads=1 + i % 3, u=16, dirs=("all", "final", "one")[i % 3], pid=P.rand_id(rng), contract=P.contract(i) if i % 2 else None), i))
    for i, a in enumerate(clis(rng, chk.n(60, 600))):
        work.append(("cli", t["chia_plot_asanp" if i % 2 else "chia_plot_k34_asanp"], a, i))
    for name, a, parts in (("h_p34_asan", ["--mode", "full", "--cases", chk.n(2, 40)], 2), ("h_p34_asan", ["--mode", "p4", "--cases", chk.n(12, 200)], 1), ("h_p2_asan", ["--cases", chk.n(6, 100)], 2),
                           ("h_p1s_asan", ["--cases", chk.n(24, 400)], 1), ("h_stage2_asan", ["--cases", chk.n(4, 60)], 1), ("h_sort_asan", ["--cases", chk.n(40, 800)], 2), ("h_codec_asan", ["--rounds", chk.n(3, 40)], 1), ("h_codec_k34_asan", ["--rounds", chk.n(3, 40)], 1),
                           ("h_fse_asan", ["--rounds", chk.n(250, 4000)], 2), ("h_chacha_asan", ["--rounds", chk.n(800, 9000)], 1), ("h_bits_asan", ["--rounds", chk.n(40, 600)], 1)):
        if name in t:
            for p in range(parts):
                work.append(("harness", t[name], a + ["--part", p + 100], name))
    work.sort(key=lambda w: {"memcheck": 0, "harness": 1, "plot": 2, "cli": 3}[w[0]])

    def one(w):
        kind, binary, c, i = w
        if kind == "harness":
            r = H.run(chk, binary, c, only_san=True)
            chk.observe("harness_processes", 1)
            chk.case((i, tuple(map(str, c))))
            return
        if kind == "cli":
            d = P.os.path.join(chk.scratch, "cli%d" % i)
            P.os.makedirs(d)
            p = P.Proc([binary] + [a.replace("@", d + "/") for a in c], dict(H.SAN_ENV, VERIF_RAND="3"), d, 30, 120, P.os.path.join(d, "out.txt"))
            rc = p.wait()
            san.report(chk, P.os.path.join(d, "out.txt"), rc, "chia_plot " + " ".join(c)[:200], {"argv": [binary] + c})
            chk.observe("command_lines", 1)
            chk.case(tuple(c))
            P.shutil.rmtree(d, ignore_errors=True)
            return
        env = dict(H.SAN_ENV)
        if kind == "plot" and i % 2:
            env.update({"VERIF_SLOWIO": str(chk.seed * 100 + i)})
        r = P.PlotRun(chk, binary, tag="%s%d" % (kind, i), rand=i + 1, env=env, wrap=memcheck.CMD if kind == "memcheck" else (), stall=40, limit=500, **c).run()
        try:
            if kind == "memcheck":
                chk.observe("plots_under_memcheck", len(r.plots()))
                for k, key, text in memcheck.parse(open(r.out, errors="replace").read()):
                    chk.violation(key, "%s: %s (%s)" % (k, key, r.desc), dict(r.repro(), report=text))
                if r.rc in (-11, 139):
                    chk.violation("signal:-11", "crash under memcheck (%s)" % r.desc, r.repro())
            else:
                chk.observe("plots_under_asan", len(r.plots()))
                san.report(chk, r.out, r.rc, "plot %s" % r.desc, r.repro())
            chk.case((kind, str(c)))
        finally:
            r.clean()
    P.parallel(one, work)


def clis(rng, n):
    """command lines around and beyond the accepted ones; those that are accepted make small plots"""
    keys = [P.PK, P.FK, "", "0x" + P.PK, P.PK[:-1], P.PK + "0", "zz" * 48, "0x", "x", "\xff" * 96, "0" * 5000]
    cons = [P.contract(1), P.contract(1).upper(), P.bech32m("xch", b"\1" * 31), P.bech32m("xch", b"\2" * 33), P.bech32m("xch", b"\3" * 32, 1), P.bech32m("xch", b""), "xch1", "1", "", "q" * 200, "xch1" + "q" * 58, "\xe9" * 62]
    out = []
    for _ in range(n):
        a = []
        if rng.random() < 0.9:
            a += ["-k", rng.choice(["16", "16", "17", "15", "33", "35", "-1", "2147483647", "99999999999", "abc", ""])]
        if rng.random() < 0.7:
            a += ["-f", rng.choice(keys if rng.random() < 0.5 else [P.FK])]
        if rng.random() < 0.6:
            a += ["-p", rng.choice(keys if rng.random() < 0.5 else [P.PK])]
        if rng.random() < 0.4:
            a += ["-c", rng.choice(cons)]
        if rng.random() < 0.8:
            a += ["-t", rng.choice(["@", "@", "@", "@nosuch/", "", "x", "/", "@" + "d" * 300 + "/"])] if rng.random() < 0.95 else ["-t"]
            if a[-1] == "/":
                a[-1] = "@"
        if rng.random() < 0.4:
            a += ["-i", rng.choice(["00" * 32, "0x" + "ab" * 32, "0" * 63, "0" * 65, "zz", "", "ab" * 33])]
        if rng.random() < 0.7:
            a += ["-u", rng.choice(["16", "16", "4", "3", "0", "-16", "17", "65536", "65537", "1000000000", "x"])]
        if rng.random() < 0.3:
            a += ["-v", rng.choice(["16", "4", "0", "-5", "256", "1000000"])]
        if rng.random() < 0.6:
            a += ["-r", rng.choice(["1", "2", "4", "0", "-3", "1025", "1e3"])]
        if rng.random() < 0.3:
            a += ["-x", rng.choice(["8444", "11337", "-1", "0", "2147483647"])]
        if rng.random() < 0.2:
            a += rng.choice([["--help"], ["--version"], ["--nosuch"], ["-Q"], ["--", "a"], ["stray"], ["-n", "0"], ["-s", "@"], ["-d", "@"], ["-2", "@"], ["-s", "x"], ["-G"]])
        out.append(a)
    return [a for a in out if True]
