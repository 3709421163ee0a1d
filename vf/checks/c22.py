"""C22: ThreadSanitizer over whole plots, interrupts included, and over the stage, sort and phase harnesses."""
import os, random, signal, threading, time
from .. import build as B, plots as P, matrix as M, harness as H, san
from . import phases, c05, c20
RULE = ("one case = one process of the real code (whole run by configuration, or harness by its arguments) whose every access and synchronisation was observed to its end; distinct by arguments; "
        "inputs inside harnesses count as evaluations")
ASSUMPTIONS = ["happens-before races on executed paths only", "races inside the crypto stand-ins are not judged"]


def targets():
    th = B.harness("h_thread.cpp", name="h_thread_tsan", san="tsan", extra_src=[B.R("src/settings.cpp")]).opt()
    return [B.plotter(san="tsan")], [th, phases.p34(san="tsan"), phases.p2(san="tsan"), phases.stage2(san="tsan")] + c05.targets("tsan")[:1] + [x for x in c20.targets() if x.san == "tsan"]


def run(chk):
    must, opt = targets()
    t = B.build(must + opt + [B.slowio()])
    rng = random.Random(chk.seed * 37 + 22)
    work = []
    n = chk.n(14, 100)
    for i, c in enumerate(M.configs(rng, n, [16, 16, 16, 17], perturbed=0)):
        c["threads"] = [2, 4, 8, 3, 16, 1, 5, 7][(i + chk.seed) % 8]
        c["extra"] = [x for x in ("-D", "-w", "-Z") if rng.random() < 0.2]
        c["n"] = 2 if i % 3 == 0 else 1
        if c["dirs"] in ("two", "final") and c["n"] > 1 and rng.random() < 0.5:
            c["extra"].append("-G")
        if i % 4 == 1:
            c["u"], c["v"] = 64, 32
        work.append(("plot", t["chia_plot_tsan"], c, i))
    for i in range(chk.n(4, 30)):
        work.append(("interrupt", t["chia_plot_tsan"], dict(k=16, threads=2 + i % 3, u=16, dirs=("final", "all")[i % 2], n=rng.choice([3, -1])), i))
    for name, a, parts in (("h_thread_tsan", ["--cases", chk.n(60, 1000)], 3), ("h_p34_tsan", ["--mode", "full", "--cases", chk.n(2, 40)], 1), ("h_p2_tsan", ["--cases", chk.n(5, 100)], 2), ("h_stage2_tsan", ["--cases", chk.n(4, 60)], 1),
                           ("h_sort_tsan", ["--cases", chk.n(40, 800)], 2), ("h_bitfield_tsan", ["--rounds", chk.n(40, 800)], 1)):
        if name in t:
            for p in range(parts):
                work.append(("harness", t[name], a + ["--part", p + 200], name))
    work.sort(key=lambda w: {"plot": 1, "harness": 0, "interrupt": 0}[w[0]])

    def one(w):
        kind, binary, c, i = w
        if kind == "harness":
            H.run(chk, binary, c, only_san=True)
            chk.observe("harness_processes", 1)
            chk.case((i, tuple(map(str, c))))
            return
        env = dict(H.SAN_ENV)
        r = P.PlotRun(chk, binary, tag="%s%d" % (kind, i), rand=i + 1, env=env, stall=60, limit=500, pid=P.rand_id(rng) if c.get("n", 1) == 1 else None, **c)
        if i % 2:
            r.env.update({"VERIF_SLOWIO": str(chk.seed * 100 + i), "LD_PRELOAD": t["slowio.so"]})
        r.start()
        if kind == "interrupt":
            def hit():
                t0 = time.time()
                while time.time() - t0 < 60 and r.proc.p.poll() is None:
                    if "Phase 1" in r.proc.output() or "[P1]" in r.proc.output():
                        break
                    time.sleep(0.1)
                time.sleep(random.Random(i).random() * 2)
                try:
                    os.kill(r.proc.p.pid, signal.SIGINT if i % 2 else signal.SIGTERM)
                    chk.observe("interrupts_sent", 1)
                except OSError:
                    pass
            th = threading.Thread(target=hit)
            th.start()
        r.rc = r.proc.wait()
        if kind == "interrupt":
            th.join()
        try:
            if r.proc.timeout:
                raise P.HarnessError("plotter still busy after %d s" % r.limit)
            chk.observe("plots_under_tsan", len(r.plots()))
            san.report(chk, r.out, r.rc, "run %s" % r.desc, r.repro())
            chk.case((kind, str(c)))
        finally:
            r.clean()
    P.parallel(one, work)
