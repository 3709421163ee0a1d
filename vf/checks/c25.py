"""C25: multi-plot runs under every option combination, and interrupts at random moments of frozen, inspected runs."""
import os, random, re, shutil, signal, tempfile, time
from .. import build as B, plots as P, matrix as M, iof
RULE = ("one case = one multi-plot run: count, directories (final directory on the same or on another file system), direct output, toggle, wait, schedule or I/O delays, and none, one or two signals; the process is frozen before a "
        "signal is sent and the plots it has begun are read from the file names, afterwards every directory is listed and every published plot decoded; distinct by configuration and signal moment")
ASSUMPTIONS = ["signals are sent after the first table file exists (handlers installed before plotting)", "k 16..19; another file system is /dev/shm where available"]
IDRE = re.compile(r"-([0-9a-f]{64})\.")


class Multi:
    def __init__(self, chk, t, i, c):
        self.chk, self.t, self.c = chk, t, c
        self.r = P.PlotRun(chk, t["chia_plot"], k=c["k"], threads=c["r"], u=16, n=c["n"], tag="m%d" % i, rand=chk.seed * 1000 + i, dirs=c["dirs"], extra=c["extra"], perturb=c.get("perturb"), pmode=c.get("pmode", 0), limit=400, stall=30)
        self.other = None
        if c.get("xdev") and other_fs():
            self.other = tempfile.mkdtemp(prefix="vf_C25_", dir="/dev/shm")
            os.rmdir(self.r.fd.rstrip("/"))
            os.symlink(self.other, self.r.fd.rstrip("/"))
        if c.get("slow"):
            self.r.env.update({"LD_PRELOAD": t["slowio.so"], "VERIF_SLOWIO": str(c["slow"])})
            if c.get("nap"):
                self.r.env.update({"VERIF_EXIT_NAP": str(c["nap"]), "MALLOC_PERTURB_": "165"})

    def clean(self):
        self.r.clean()
        if self.other:
            shutil.rmtree(self.other, ignore_errors=True)

    def begun(self):
        """(ids with any file, ids with work files) right now"""
        ids, busy = set(), set()
        for d in (self.r.t1, self.r.t2, self.r.fd, self.r.sd):
            try:
                fs = os.listdir(d)
            except OSError:
                continue
            for f in fs:
                m = IDRE.search(f)
                if m:
                    ids.add(m.group(1))
                    if re.search(r"\.p\d", f):
                        busy.add(m.group(1))
        return ids, busy

    def judge(self, lo, hi, label, complete=True):
        chk, r = self.chk, self.r
        rep = dict(r.repro(), case=self.c, files=r.files())
        plots = r.plots()
        for q in P.plotcheck(self.t["plotcheck"], plots) if plots else []:
            chk.observe("plots_verified")
            if q["errors"]:
                chk.violation("incomplete:" + label, "%s: published plot is broken: %s (%s)" % (label, q["errors"][0]["msg"], self.c), rep)
        if not complete:
            return
        if not lo <= len(plots) <= hi:
            chk.violation("count:" + label, "%s: %d plots published instead of %d (%s)" % (label, len(plots), lo, self.c), rep)
        ids = [IDRE.search(os.path.basename(p)).group(1) for p in plots if IDRE.search(os.path.basename(p))]
        if len(set(ids)) != len(plots):
            chk.violation("distinct:" + label, "%s: a plot is there twice (%s)" % (label, self.c), rep)
        left = [f for f in r.files() if not f.endswith(".plot")]
        if left:
            chk.violation("left:" + label, "%s: left behind: %s (%s)" % (label, left[:4], self.c), rep)
        home = r.fd if self.c["dirs"] in ("final", "all") else None if "-G" in self.c["extra"] else r.t1
        if home:
            for p in plots:
                if os.path.realpath(os.path.dirname(p)) != os.path.realpath(home):
                    chk.violation("place:" + label, "%s: plot published in %s (%s)" % (label, p[len(r.dir):], self.c), rep)
        elif plots and not all(os.path.basename(os.path.dirname(p)) in ("t1", "t2") for p in plots):
            chk.violation("place:" + label, "%s: plots not in the working directories (%s)" % (label, self.c), rep)


_fs = {}


def other_fs():
    if "v" not in _fs:
        try:
            st = os.statvfs("/dev/shm")
            _fs["v"] = os.stat("/dev/shm").st_dev != os.stat(tempfile.gettempdir()).st_dev and st.f_bavail * st.f_frsize > 300 << 20
        except OSError:
            _fs["v"] = False
    return _fs["v"]


def pending(pid):
    try:
        for l in open("/proc/%d/status" % pid):
            if l.startswith("ShdPnd") and int(l.split()[1], 16):
                return True
    except OSError:
        return False
    return False


def alive(p):
    return p.poll() is None


def frozen(m, sig):
    """stop, look, signal, continue; returns (ids, busy, t_sent, t_handled) or None when it had ended"""
    p = m.r.proc.p
    if not alive(p):
        return None
    try:
        os.kill(p.pid, signal.SIGSTOP)
        for _ in range(1000):
            st = [open("/proc/%d/task/%s/stat" % (p.pid, x)).read().rsplit(")", 1)[1].split()[0] for x in os.listdir("/proc/%d/task" % p.pid)]
            if all(x in "TtZX" for x in st):
                break
            time.sleep(0.002)
        if any(x in "ZX" for x in st) and len(st) == 1:
            os.kill(p.pid, signal.SIGCONT)
            return None
        ids, busy = m.begun()
        t0 = time.time()
        os.kill(p.pid, sig)
        os.kill(p.pid, signal.SIGCONT)
        while pending(p.pid) and alive(p) and time.time() - t0 < 30:
            time.sleep(0.002)
        return ids, busy, t0, time.time()
    except (OSError, IndexError):
        try:
            os.kill(p.pid, signal.SIGCONT)
        except OSError:
            pass
        return None


def order_cases(chk):
    rng = random.Random(chk.seed * 77 + 25)
    out = []
    for rep in range(chk.n(1, 6)):
        for d in ("final", "all"):
            for n in (3, -1):
                for late in (False, True):
                    out.append(dict(n=n, dirs=d, extra=["-w"], late=late, r=rng.choice([1, 2, 4]), k=16))
        for d, e in (("two", ["-G"]), ("final", ["-G"]), ("final", ["-w", "-G"]), ("final", ["-D"]), ("final", ["-D", "-G"]), ("all", ["-D"]), ("all", []), ("two", [])):
            out.append(dict(n=rng.choice([3, 4]), dirs=d, extra=e, late="-w" in e, r=rng.choice([1, 2, 4]), k=16))
    return out


def ordered(chk, t, i, c):
    """what happens when, and where, read from the trace of file operations of one run"""
    faults = ["rename:EIO:1:3:/final/"] if c["late"] else []        # the first copy fails once and is tried again after a pause
    tr = iof.Traced(chk, t, faults=faults, tag="o%d" % i, pid=None, stall=30, limit=400, threads=c["r"], u=16, n=c["n"], dirs=c["dirs"], extra=c["extra"], k=c["k"], rand=chk.seed * 500 + i)
    r = tr.run
    r.env["VERIF_NAP"] = "1500"
    try:
        r.start()
        if c["n"] < 0:
            t0 = time.time()
            while time.time() - t0 < 60 and r.proc.p.poll() is None:
                time.sleep(0.3)
                if len({m.group(1) for o in iof.parse(tr.log) for m in [IDRE.search(os.path.basename(o[4]))] if m}) >= 4:
                    break
            r.proc.kill()
        r.rc = r.proc.wait()
        if c["n"] > 0 and r.rc != 0:
            chk.violation("order:status", "exit %d: %s: %s" % (r.rc, c, r.proc.output(200)), tr.repro())
            return
        ids, first, done, where, out = [], {}, {}, {}, {}
        for n, call, ret, mode, p1, p2, inj in tr.ops():
            if ret < 0:
                continue
            for p in (p1, p2):
                m = IDRE.search(os.path.basename(p))
                if m and m.group(1) not in first:
                    ids.append(m.group(1))
                    first[m.group(1)] = n
            m = IDRE.search(os.path.basename(p2 or p1))
            if not m:
                continue
            if call == "rename" and p2.endswith(".plot"):
                done[m.group(1)] = (n, os.path.basename(os.path.dirname(p2)))
            if call == "open" and mode in ("w", "wt"):
                d, f = os.path.split(p1)
                if f.endswith(".p1.table1.tmp"):
                    where[m.group(1)] = os.path.basename(d)
                if f.endswith(".plot.tmp"):
                    out.setdefault(m.group(1), os.path.basename(d))
        if len(ids) < 3:
            raise P.HarnessError("only %d plots in the trace: %s" % (len(ids), c))
        chk.observe("ordered_runs")
        for j, d in enumerate(ids):
            if "-w" in c["extra"] and c["dirs"] in ("final", "all") and "-D" not in c["extra"] and j + 1 < len(ids):
                if d not in done or done[d][1] != "final" or done[d][0] > first[ids[j + 1]]:
                    chk.violation("order:wait", "plot %d was started before plot %d was in the final directory although waiting for copies was asked for (%s)" % (j + 2, j + 1, c), tr.repro())
                chk.observe("waits_observed")
            if d in where:
                want = "t2" if "-G" in c["extra"] and j % 2 else "t1"
                if where[d] != want:
                    chk.violation("order:toggle", "plot %d keeps its tables in %s instead of %s (%s)" % (j + 1, where[d], want, c), tr.repro())
                chk.observe("work_directories_observed")
            if d in out and "-G" not in c["extra"]:
                want = "final" if "-D" in c["extra"] else "stage" if c["dirs"] == "all" else "t1"
                if out[d] != want:
                    chk.violation("order:output", "plot %d is written in %s instead of %s (%s)" % (j + 1, out[d], want, c), tr.repro())
                chk.observe("output_directories_observed")
            elif d in out and "-D" in c["extra"] and out[d] != "final":
                chk.violation("order:output", "plot %d is written in %s although direct output was asked for (%s)" % (j + 1, out[d], c), tr.repro())
        chk.case(("order", str(c)), {"ordered": c, "plots": len(ids)} if i % 8 == 0 else None)
    finally:
        tr.clean()


def run(chk):
    t = M.tools(chk, [B.slowio(), B.iotrace(), B.fastsleep()])
    P.parallel(lambda a: ordered(chk, t, *a), list(enumerate(order_cases(chk))))
    rng = random.Random(chk.seed * 91 + 25)
    work = []
    combos = [(d, [x for x in ("-D", "-w", "-G") if x in e]) for d in ("one", "two", "final", "all") for e in ("", "-D", "-w", "-G", "-D-w", "-D-G", "-w-G", "-D-w-G") if not (d == "all" and "-G" in e)]
    combos = combos * chk.n(2, 10)
    for i, (d, e) in enumerate(combos):
        work.append(("none", dict(k=rng.choice([16, 16, 17]), r=rng.choice([1, 2, 4, 7]), n=rng.choice([0, 1, 1, 2, 3, 4]) if i >= 28 else [2, 3, 4][i % 3], dirs=d, extra=list(e))))
    for i in range(chk.n(60, 600)):
        d, e = rng.choice(combos)
        work.append((rng.choice(["one", "one", "one", "two"]), dict(k=rng.choice([16, 16, 17, 18]), r=rng.choice([1, 2, 4]), n=rng.choice([-1, -7, 2, 3, 5]), dirs=d, extra=list(e), at=rng.random() * 2.5, sig=rng.choice(["SIGINT", "SIGTERM"]))))
    for i in range(chk.n(30, 300)):
        d, e = rng.choice(combos)
        work.append(("double", dict(k=rng.choice([16, 17, 18]), r=rng.choice([1, 2, 4]), n=rng.choice([-1, -1, 3]), dirs=d, extra=list(e), at=rng.random() * 2.5, gap=rng.choice([0, 0.01, 0.1, 0.3]), sig=rng.choice(["SIGINT", "SIGTERM"]))))
    for kind, c in work:
        c["xdev"] = c["dirs"] in ("final", "all") and rng.random() < 0.6
        x = rng.random()
        if x < 0.25:
            c["perturb"], c["pmode"] = rng.randrange(1 << 30), rng.choice([0, 3, 4, 5])
        elif x < 0.5:
            c["slow"] = rng.randrange(1, 1 << 30)
        if kind == "double" and rng.random() < 0.8:
            c.pop("perturb", 0)
            c["slow"], c["nap"] = rng.randrange(1, 1 << 30), 1200

    def one(a):
        i, (kind, c) = a
        m = Multi(chk, t, i, c)
        r = m.r
        try:
            r.start()
            p = r.proc.p
            first = second = None
            if kind != "none":
                t0 = time.time()
                while alive(p) and time.time() - t0 < 60 and not m.begun()[0]:
                    time.sleep(0.01)
                time.sleep(c["at"])
                sig = getattr(signal, c["sig"])
                first = frozen(m, sig)
                if first and kind != "one":
                    time.sleep(1.25 if kind == "two" else c["gap"])
                    second = frozen(m, sig)
            r.rc = r.proc.wait()
            if r.proc.timeout:
                raise P.HarnessError("still busy: %s" % c)
            rep = dict(r.repro(), case=c, first=str(first), second=str(second))
            if r.hang:
                chk.violation("hang:" + kind, "no progress after %s: %s" % (kind, c), rep)
                return
            if kind == "double" and second:
                chk.observe("double_interrupts")
                if second[3] - first[2] < 0.9:          # both handled within the second
                    if r.rc == 0 and second[1]:
                        chk.violation("double:ignored", "a second interrupt within %.2f s did not end the run: %s" % (second[3] - first[2], c), rep)
                    elif r.rc < 0:
                        chk.violation("double:signal", "the double interrupt ended in signal %d: %s" % (-r.rc, c), rep)
                    m.judge(0, 0, "double", complete=False)
                    chk.case((kind, str(c)) if r.rc != 0 else None)
                elif r.rc == 0:
                    m.judge(len(first[0]), len(first[0]) + 1, "double-late")
                return
            if r.rc != 0:
                chk.violation("status:" + kind, "exit %d: %s: %s" % (r.rc, c, r.proc.output(200)), rep)
                return
            if first:
                chk.observe("interrupts_handled")
                s = len(first[0])
                hi = s if first[1] else s + 1           # work files of a plot: no other one can be starting
                if c["n"] > 0:
                    hi = min(hi, c["n"])
                    s = min(s, c["n"])
                m.judge(s, hi, kind)
                if hi == s:
                    chk.observe("exact_interrupt_counts")
            else:
                if c["n"] < 0:
                    chk.violation("endless", "an endless run ended by itself: %s" % c, rep)
                m.judge(c["n"], c["n"], kind)
                chk.observe("full_runs")
            chk.case((kind, str(c)), {"kind": kind, "config": c, "plots": len(r.plots())} if i % 20 == 0 else None)
        finally:
            m.clean()
    P.parallel(one, list(enumerate(work)))

