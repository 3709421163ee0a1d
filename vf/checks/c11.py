"""C11: directory snapshots with decoys, and a monitor over the trace of every create/open/rename/unlink."""
import os, random, stat
from .. import build as B, plots as P, iof, matrix as M
RULE = ("one case = one run (accepted or rejected command line) with decoy files in all its directories; the traced history of names, the directory listing and the decoys' content, inode and "
        "times are judged; for plotting runs also the peak disk use per directory computed from the trace; distinct by configuration")
ASSUMPTIONS = ["the fixed probe names .chia_plot_* are the plotter's own", "peak disk use is compared with the documented 220/110/256 GiB scaled to k, at k = 20 with fixed ids"]
OTHER = "0badc0de" * 8


def decoys(r, rng, pid):
    """files that are not the plotter's, with names close to its own"""
    out = {}
    outside = os.path.join(r.dir, "outside")
    os.makedirs(outside)
    names = ["plot-k16-2021-01-01-00-00-%s.plot" % OTHER, "plot-k16-2021-01-01-00-00-%s.plot.tmp" % OTHER, "plot-k16-2021-01-01-00-00-%s.p1.table1.tmp" % OTHER,
             "plot-k16-2021-01-01-00-00-%s.p3s1.t2.sort_bucket_3.tmp" % OTHER, "plot-k16-2021-01-01-00-00-%s.p1.t1.sort_bucket_0.tmp" % pid, "a.plot", "b.tmp", "x.plot.tmp", ".hidden.tmp",
             "plot.tmp", ".plot", ".tmp", "tmp", "plot-k16.tmp", "table1.tmp", "sort_bucket_0.tmp", "plot-k16-%s.p1.table1.tmp" % pid, "chia_plot_tmp", "with space.plot"]
    for d in (r.t1, r.t2, r.fd, r.sd, outside + "/", r.dir + "/"):
        for n in names:
            p = d + n
            open(p, "wb").write(rng.randbytes(rng.randrange(0, 300)))
            out[p] = None
        sub = d + "sub"
        os.makedirs(sub)
        for n in names[:4]:
            open(sub + "/" + n, "wb").write(b"sub")
            out[sub + "/" + n] = None
    for d in (r.t1, r.t2, r.fd, r.sd):
        os.symlink(outside + "/a.plot", d + "link.plot")
        os.symlink(outside + "/b.tmp", d + "plot-k16-link.p1.table1.tmp")
    for p in out:
        out[p] = snap(p)
    return out


def snap(p):
    try:
        s = os.lstat(p)
        return (s.st_ino, s.st_size, s.st_mtime_ns, s.st_mode, s.st_nlink, open(p, "rb").read() if stat.S_ISREG(s.st_mode) else b"")
    except OSError:
        return None


def listing(r):
    out = set()
    for d, ds, fs in os.walk(r.dir):
        for f in fs + ds:
            out.add(os.path.join(d, f))
    return out


def history(chk, tr, existing, key):
    """nothing that existed before is created anew, written, truncated, renamed or removed; returns files created and still there by the trace"""
    mine = set()
    ren = {}
    for n, call, ret, mode, p1, p2, inj in tr.ops():
        if ret < 0 and call not in ("unlink",):
            continue
        chk.observe("trace_events")
        if call == "open" and mode in ("w", "wt"):
            if p1 in existing:
                chk.violation(key + ":overwrite", "opened for writing although it is not the plotter's: %s" % p1, tr.repro())
            mine.add(p1)
        elif call in ("write", "truncate", "chmod", "copyrange", "sendfile") and p1 not in mine and p1 not in ren:
            if p1 in existing:
                chk.violation(key + ":overwrite", "%s on a file that is not the plotter's: %s" % (call, p1), tr.repro())
        elif call == "unlink":
            if p1 in existing:
                chk.violation(key + ":remove", "tried to remove a file that is not the plotter's: %s" % p1, tr.repro())
            if ret >= 0:
                mine.discard(p1)
        elif call in ("rename", "link"):
            for p in (p1, p2):
                if p in existing:
                    chk.violation(key + ":rename", "renamed or replaced a file that is not the plotter's: %s" % p, tr.repro())
            if call == "rename":
                mine.discard(p1)
            ren[p1] = p2
            mine.add(p2)
        elif call in ("symlink", "mkdir"):
            mine.add(p2 or p1)
    return mine


def peaks(tr, k):
    size, tot, pk = {}, {}, {}

    def add(p, d):
        for q in (os.path.basename(os.path.dirname(p)), "all"):
            tot[q] = tot.get(q, 0) + d
            pk[q] = max(pk.get(q, 0), tot[q])
    for n, call, ret, mode, p1, p2, inj in tr.ops():
        if ret < 0:
            continue
        if call == "open" and mode == "wt":
            add(p1, -size.get(p1, 0))
            size[p1] = 0
        elif call == "write":
            size[p1] = size.get(p1, 0) + ret
            add(p1, ret)
        elif call == "unlink":
            add(p1, -size.pop(p1, 0))
        elif call == "rename" and p1 in size:
            s = size.pop(p1)
            add(p1, -s)
            size[p2] = s
            add(p2, s)
    return {q: v / 2.0 ** k for q, v in pk.items()}


def run(chk):
    t = B.build([B.plotter(), B.plotcheck(), B.iotrace(), B.fastsleep()])
    rng = random.Random(chk.seed * 777 + 11)
    work = []
    for i in range(chk.n(20, 150)):
        c = dict(k=rng.choice([16, 16, 17]), threads=rng.choice([1, 2, 4, 7]), u=rng.choice([16, 32]), v=rng.choice([None, 16, 64]),
                 dirs=["one", "two", "final", "all"][i % 4], n=rng.choice([1, 1, 2, 3]), extra=[])
        if c["k"] < 18 and c["v"] == 64:
            c["v"] = 32
        if rng.random() < 0.3:
            c["extra"].append("-D")
        if rng.random() < 0.3:
            c["extra"].append("-w")
        if rng.random() < 0.25 and c["dirs"] != "all":
            c["extra"].append("-G")
        faults = ["rename:EXDEV:1:1:/final/"] if c["dirs"] in ("all", "final") and "-D" not in c["extra"] and rng.random() < 0.5 else []
        work.append(("run", c, faults, i))
    bad = [["-k", "15"], ["-k", "40"], ["-r", "0"], ["-r", "2000"], ["-u", "3"], ["-u", "100000000"], ["-v", "2"], ["-d", "/nonexistent-dir/"], ["-2", "/nonexistent-dir/"], ["-s", "/nonexistent-dir/"],
           ["-p", "1234"], ["-f", "12"], ["-i", "abcd"], ["-c", "xch1qqqq"], ["-t", "notrailing"], ["-d", "notrailing"], ["-s", "x/", "-G"], ["-u", "1024", "-k", "16"], ["-v", "1024", "-k", "16"]]
    for i, b in enumerate(bad):
        work.append(("bad", b, [], 1000 + i))
    for i in range(chk.n(3, 8)):
        work.append(("limit", i, [], 2000 + i))
    for i in range(chk.n(3, 10)):
        work.append(("peak", dict(k=20, threads=[2, 4, 8, 16][i % 4], u=[16, 64, 128][i % 3], dirs="final"), [], 3000 + i))

    def one(a):
        kind, c, faults, i = a
        r2 = random.Random(chk.seed * 1000 + i)
        if kind == "bad" or kind == "limit":
            tr = iof.Traced(chk, t, tag=str(i), k=16, threads=2, u=16, dirs="final", extra=c if kind == "bad" else [])
            if kind == "limit":
                lim = [40, 50, 47, 30, 20, 45, 35, 25][c]
                tr.run.args = ["bash", "-c", 'ulimit -n %d; exec "$@"' % lim, "x"] + tr.run.args
        else:
            pid = iof.ID0 if c.get("n", 1) == 1 else None
            tr = iof.Traced(chk, t, faults=faults, tag=str(i), pid=pid if kind == "run" else "%064x" % (0x1234567 + i), **c)
        try:
            before_d = {} if kind == "peak" else decoys(tr.run, r2, iof.ID0)
            before = listing(tr.run)
            tr.go()
            if tr.run.hang:
                chk.violation("files:hang", "hang", tr.repro())
                return
            after = listing(tr.run) - {tr.run.out}
            new = after - before
            mine = history(chk, tr, {p for p in before if not os.path.isdir(p)}, "files")
            for p, s in before_d.items():
                if snap(p) != s:
                    chk.violation("files:decoy", "a file that is not the plotter's was changed or removed: %s" % p, tr.repro())
                chk.observe("decoys_checked")
            if kind in ("bad", "limit"):
                if tr.rc == 0:
                    if kind == "bad":
                        chk.violation("files:accepted", "bad command line %s accepted" % c, tr.repro())
                    elif not new:
                        chk.violation("files:noplot", "success without a plot", tr.repro())
                elif new:
                    chk.violation("files:rejected", "a rejected command line (%s) left files: %s" % (c, sorted(os.path.basename(x) for x in new)[:5]), tr.repro())
                chk.case((kind, str(c)))
                return
            if tr.rc != 0:
                chk.violation("files:failed", "run failed with %s" % tr.rc, tr.repro())
                return
            pub = {x for x in new if x.endswith(".plot")}
            if new - pub:
                chk.violation("files:left", "files left after success: %s (%s)" % (sorted(x[len(tr.run.dir):] for x in new - pub)[:6], tr.run.desc), tr.repro())
            if len(pub) != c.get("n", 1):
                chk.violation("files:count", "%d plots instead of %d" % (len(pub), c.get("n", 1)), tr.repro())
            if kind == "peak":
                pk = peaks(tr, c["k"])
                for d, lim in (("all", 64.0), ("t1", 55.0), ("t2", 27.5)):
                    if d == "all":
                        v = max(pk.values()) if "all" not in pk else pk["all"]
                    else:
                        v = pk.get(d, 0)
                    chk.observe_max("peak_bytes_per_entry_%s_x100" % d, int(v * 100))
                    if v >= lim:
                        chk.violation("files:peak:" + d, "peak disk use in %s is %.2f bytes per 2^k, documented %.1f (%s)" % (d, v, lim, tr.run.desc), tr.repro())
            chk.case((kind, str(c), str(faults)), {"config": c, "decoys": len(before_d), "created": len([o for o in tr.ops() if o[1] == "open" and o[3] == "wt"]), "published": len(pub)})
        finally:
            tr.clean()
    P.parallel(one, sorted(work, key=lambda w: w[0] != "peak"))
    # nothing outside the run's own directories is touched (all mutating calls of one run, watched from the root)
    tr = iof.Traced(chk, t, tag="root", root="/", k=16, threads=2, u=16, dirs="all").go()
    try:
        for n, call, ret, mode, p1, p2, inj in tr.ops():
            if (call == "open" and mode in ("w", "wt")) or call in ("unlink", "rename", "link", "symlink", "mkdir", "truncate", "chmod"):
                for p in (p1, p2):
                    if p and not p.startswith(tr.run.dir) and not p.startswith("/dev/") and not p.startswith("/proc/self/"):
                        chk.violation("files:outside", "%s outside the given directories: %s" % (call, p), tr.repro())
        chk.observe("root_trace_events", tr.st["ops"])
    finally:
        tr.clean()
