"""C27: real runs in directories full of leftovers (killed, failed or finished runs, garbage under the very names it is going to use)."""
import os, random
from .. import build as B, plots as P, iof
RULE = ("one case = one run of the real plotter for a fixed id and minute in directories that hold (a) what a run killed or failed at a chosen operation left, as it is or damaged, or (b) garbage under every name the run is "
        "going to create; the published plot is compared with the one from empty directories; distinct by leftovers and configuration; non-trivial = at least one name was met again")
ASSUMPTIONS = ["leftovers are ordinary writable files", "k = 16; the calendar is held still so that both runs choose the same names"]
NOW = 1700000000
CFGS = [dict(k=16, threads=4, u=16, dirs="one"), dict(k=16, threads=3, u=16, dirs="all", rchunk=2000), dict(k=16, threads=5, u=32, dirs="final", extra=["-D"]),
        dict(k=16, threads=4, u=16, dirs="two", extra=["-G"]), dict(k=16, threads=2, u=64, v=16, dirs="final", extra=["-w"])]


def damage(rng, path, style):
    if style == "asis":
        return
    size = os.path.getsize(path) if os.path.exists(path) else 0
    n = {"longer": size + rng.randrange(1, 200000), "garbage": max(size, rng.randrange(1, 5000)), "short": size // 2, "empty": 0}[style]
    with open(path, "ab" if style == "longer" else "r+b" if os.path.exists(path) else "wb") as f:
        if style == "longer":
            f.write(rng.randbytes(n - size))
        elif style == "garbage":
            f.write(rng.randbytes(n))
        else:
            f.truncate(n)


def run(chk):
    t = B.build([B.plotter(), B.plotcheck(), B.iotrace(), B.fastsleep()])
    rng = random.Random(chk.seed * 271 + 27)
    base = []
    for ci, cfg in enumerate(CFGS):
        b = iof.Traced(chk, t, tag="b%d" % ci, now=NOW, **cfg).go()
        try:
            if b.rc != 0 or len(b.run.plots()) != 1:
                chk.violation("baseline", "run in empty directories failed: rc=%s %s" % (b.rc, b.run.proc.output(300)), b.repro())
                return
            rep = P.plotcheck(t["plotcheck"], b.run.plots(), ref=True)[0]
            if rep["errors"]:
                chk.violation("baseline", "plot from empty directories is wrong: %s" % rep["errors"][0]["msg"], b.repro())
                return
            names = set()
            for n, call, ret, mode, p1, p2, inj in b.ops():
                if call == "open" and mode in ("w", "wt"):
                    names.add(os.path.relpath(p1, b.run.dir))
                elif call in ("rename", "link"):
                    names.add(os.path.relpath(p2, b.run.dir))
            base.append((rep["digest"], rep["size"], sorted(names), b.st["ops"]))
        finally:
            b.clean()
    work = []
    for i in range(chk.n(150, 2000)):
        ci = i % len(CFGS)
        total = base[ci][3]
        kind = ["kill", "kill", "late", "fault", "done", "names", "names"][rng.randrange(7)]
        style = rng.choice(["asis", "asis", "asis", "longer", "garbage", "short", "empty"])
        at = rng.randrange(1, total + 1) if kind != "late" else total - rng.randrange(0, 60)
        second = dict(CFGS[ci])
        if rng.random() < 0.5:
            second["threads"] = rng.choice([1, 2, 7, 8])
        if rng.random() < 0.3:
            second["u"], second["v"] = rng.choice([(16, 16), (32, 64), (64, 32)])
        work.append((i, ci, kind, style, at, second, rng.getrandbits(40)))

    def one(a):
        i, ci, kind, style, at, second, s = a
        r = random.Random(s)
        digest, size, names, total = base[ci]
        root = os.path.join(chk.scratch, "left%d" % i)
        what = "%s at %d, %s" % (kind, at, style)
        first = None
        if kind == "names":
            for d in ("t1", "t2", "final", "stage"):
                os.makedirs(os.path.join(root, d))
            style = style if style != "asis" else "garbage"
            for n in names:
                if ".chia_plot_" not in n:
                    damage(r, os.path.join(root, n), style)
        else:
            f = []
            if kind == "fault":
                f = ["%s:%s:%d:0" % (r.choice([("write", "ENOSPC"), ("open", "EMFILE"), ("read", "EIO"), ("rename", "EACCES")]) + (r.randrange(1, 200),))]
            first = iof.Traced(chk, t, faults=f, kill=at if kind in ("kill", "late") else None, tag="a%d" % i, now=NOW, inside=root, stall=6, **CFGS[ci]).go()
            for x in first.run.files():
                if r.random() < 0.8 or style == "asis":
                    damage(r, os.path.join(root, x), style)
        left = set(os.path.relpath(os.path.join(d, x), root) for d, _, fs in os.walk(root) for x in fs)
        left -= {"out.txt", "perturb.log"}
        tr = iof.Traced(chk, t, tag="r%d" % i, now=NOW, inside=root, **second).go()
        try:
            msg = "leftovers (%s), %d files: " % (what, len(left))
            if tr.run.hang:
                chk.violation("hang", msg + "the run stopped making progress", tr.repro())
                return
            if tr.rc != 0:
                chk.violation("failed", msg + "exit %d, %s" % (tr.rc, tr.run.proc.output(200)), tr.repro())
                return
            own = set()
            for n, call, ret, mode, p1, p2, inj in tr.ops():
                if ret >= 0 and call == "open" and mode in ("w", "wt"):
                    own.add(os.path.relpath(p1, root))
                elif ret >= 0 and call in ("rename", "link"):
                    own.add(os.path.relpath(p2, root))
            now = set(tr.run.files())
            mine = sorted(x for x in own & now if not x.endswith(".plot"))
            if mine:
                chk.violation("left", msg + "%d files of the run itself are left: %s" % (len(mine), mine[:3]), tr.repro())
            pub = [x for x in own & now if x.endswith(".plot")]
            if len(pub) != 1:
                chk.violation("plots", msg + "%d plots published" % len(pub), tr.repro())
            for x in pub:
                rep = P.plotcheck(t["plotcheck"], [os.path.join(root, x)], noeval=True)[0]
                if not rep["decoded"] or rep["digest"] != digest or os.path.getsize(os.path.join(root, x)) != size:
                    chk.violation("content", msg + "the plot differs from the one made in empty directories (%s)" % rep["errors"][:2], tr.repro())
                chk.observe("plots_verified")
            chk.observe("leftover_files", len(left))
            chk.observe("names_met_again", len(left & own))
            chk.observe("leftovers_" + kind)
            chk.case((ci, kind, style, at, str(second)) if left & own else None, {"leftovers": what, "files": len(left), "met_again": len(left & own), "config": second} if i < 12 else None)
        finally:
            tr.clean()
            if first:
                first.clean()
    P.parallel(one, work)
