"""C09: every operation of a plot move failed, cut short and killed; file contents judged after each."""
import json, os, random, shutil, subprocess
from .. import build as B, plots as P, iof
from ..core import HarnessError
RULE = ("one case = one move (size around the copy buffer, same or other file system, stale temporary file or not) with one operation failed / cut short / killed before, enumerated over "
        "all operations of the move, also with the moves of the real plotter from stage to final directory; non-trivial = the fault fired; distinct by move and fault")
ASSUMPTIONS = ["process crash, not power loss (no fsync is claimed)", "another file system is simulated by rename() failing with EXDEV", "one fault at a time besides that"]
ERRS = {"write": ["ENOSPC", "SHORT", "EIO"], "read": ["EIO", "SHORT"], "open": ["EMFILE", "EACCES"], "close": ["EIO", "LOST"], "rename": ["EIO", "EACCES"], "unlink": ["EBUSY"], "seek": ["EIO"], "sync": ["EIO"],
        "truncate": ["EIO"], "copyrange": ["EIO"], "sendfile": ["EIO"], "link": ["EACCES"]}


def same(path, data):
    try:
        return open(path, "rb").read() == data
    except OSError:
        return False


def one_move(chk, t, size, chunk, exdev, stale, fault, kill, tag, record=None, cross=True):
    d = os.path.join(chk.scratch, "mv" + tag)
    s, f = os.path.join(d, "stage"), os.path.join(d, "final") if cross else os.path.join(d, "stage")
    os.makedirs(s)
    os.makedirs(f, exist_ok=True)
    data = random.Random(size * 7 + chunk).randbytes(size)
    src, dst = s + "/src.plot", f + "/dst.plot"
    open(src, "wb").write(data)
    if stale:
        open(dst + ".tmp", "wb").write(b"\xa5" * (size + 1000))
    faults = (["rename:EXDEV:1:1"] if exdev else []) + ([fault] if fault else [])
    cmd = [t["iotrace"], "--root", d, "--log", d + ".log", "--stats", d + ".st"]
    for x in faults:
        cmd += ["--fault", x]
    if kill:
        cmd += ["--kill", str(kill)]
    cmd += ["--", t["h_copy"], src, dst, str(chunk)]
    try:
        pr = P.Proc(cmd, {}, d, 12, 60, d + ".out")
        rc = pr.wait()
        if pr.hang or pr.timeout:
            chk.violation("move:hang", "final_copy did not return: size=%d chunk=%d %s" % (size, chunk, faults), {"cmd": cmd})
            return None
        if rc == 250:
            raise HarnessError("iotrace failed")
        st = json.load(open(d + ".st"))
        fired = sum(x["fired"] for x in st["faults"][1 if exdev else 0:]) if fault else 0
        what = "size=%d chunk=%d %s%s %s%s" % (size, chunk, "other fs" if exdev else "same fs", " stale tmp" if stale else "", fault or "", " killed before op %s" % kill if kill else "")
        rep = {"cmd": cmd, "rc": rc, "files": {x: os.path.getsize(os.path.join(d, x)) for x in sorted(os.path.join(os.path.basename(r), n) for r, _, ns in os.walk(d) for n in ns)}}
        complete = [os.path.join(r, n) for r, _, ns in os.walk(d) for n in ns if same(os.path.join(r, n), data)]
        if not complete:
            chk.violation("move:lost", "no complete copy of the plot is left: " + what, rep)
        if os.path.exists(dst) and not same(dst, data):
            chk.violation("move:torn", "the final path is incomplete or differs: " + what, rep)
        if rc == 0 and not kill:
            if not os.path.exists(dst):
                chk.violation("move:success", "success reported without a final file: " + what, rep)
            elif not (fault and fault.startswith("unlink")) and sorted(os.listdir(s) + (os.listdir(f) if cross else [])) != [os.path.basename(dst)]:
                chk.violation("move:left", "source or intermediate files left after success: %s: %s" % (what, sorted(os.listdir(s) + os.listdir(f))), rep)
        elif rc == 7:
            if not same(src, data):
                chk.violation("move:source", "an error was reported but the source is gone: " + what, rep)
        elif not (kill and rc == 137):
            chk.violation("move:crash", "ended with status %s: %s" % (rc, what), rep)
        if fault is None and not kill and rc != 0:
            chk.violation("move:failed", "fault-free move failed: " + what, rep)
        chk.case(what if (fired or kill or not fault) else None, what if fired and rc == 7 else None)
        chk.observe("move_operations", st["ops"])
        chk.observe("faults_fired", fired)
        return [o[1] for o in iof.parse(d + ".log")]
    finally:
        shutil.rmtree(d, ignore_errors=True)
        for x in (".log", ".st", ".out"):
            if os.path.exists(d + x):
                os.unlink(d + x)


def run(chk):
    t = B.build([B.harness("h_copy.cpp", extra_src=[B.R("src/settings.cpp")]).opt(), B.iotrace(), B.plotter(), B.plotcheck(), B.fastsleep()])
    rng = random.Random(chk.seed * 99 + 9)
    work, n = [], [0]
    shapes = []
    if "h_copy" in t:
        sizes = [0, 1, 15 * 64, 1024 - 1, 1024, 1024 + 1, 3 * 1024, 3 * 1024 + 17, 4096, 50000, 8192 + rng.randrange(9000)]
        for size in sizes:
            for exdev, stale, cross in ((True, False, True), (True, True, True), (False, False, True), (False, True, True), (False, False, False)):
                shapes.append((size, 64 if size < 50000 else 512, exdev, stale, cross))
        for _ in range(chk.n(2, 30)):
            shapes.append((rng.randrange(1, 200000), rng.choice([17, 64, 300, 4096]), rng.random() < 0.8, rng.random() < 0.5, True))
        base = P.parallel(lambda a: (a[1], one_move(chk, t, *a[1][:2], exdev=a[1][2], stale=a[1][3], fault=None, kill=None, tag="b%d" % a[0], cross=a[1][4])), list(enumerate(shapes)))
        for sh, ops in base:
            if ops is None:
                continue
            seen = {}
            for i, c in enumerate(ops):
                work.append((sh, None, i + 1))
                seen[c] = seen.get(c, 0) + 1
                for e in ERRS.get(c, []):
                    if c == "rename" and sh[2] and seen[c] == 1:
                        continue                        # that one is the simulated EXDEV
                    # the EXDEV fault consumes the first rename, this one counts all of them it is asked about
                    work.append((sh, "%s:%s:%d:1" % (c, e, seen[c] - (1 if c == "rename" and sh[2] else 0)), None))
        if chk.quick and len(work) > 2600:
            keep = [w for w in work if w[0][0] in (0, 1, 1024, 3 * 1024 + 17)]
            rest = [w for w in work if w[0][0] not in (0, 1, 1024, 3 * 1024 + 17)]
            work = keep + rng.sample(rest, min(len(rest), 2600 - len(keep)) if len(keep) < 2600 else 0)
        P.parallel(lambda a: one_move(chk, t, *a[1][0][:2], exdev=a[1][0][2], stale=a[1][0][3], fault=a[1][1], kill=a[1][2], tag="w%d" % a[0], cross=a[1][0][4]), list(enumerate(work)))
        chk.log("moves", len(work))
    plotter_moves(chk, t)


def plotter_moves(chk, t):
    """the plotter's own move from the stage to the final directory, as another file system: killed and failed at each operation on the final directory"""
    cfg = dict(k=16, threads=4, u=16, dirs="all", rchunk=1000)
    exdev = "rename:EXDEV:1:1:/final/"
    base = iof.baseline(chk, t, **cfg)
    if base is None:
        return
    b = iof.Traced(chk, t, faults=[exdev], tag="mvbase", **cfg).go()
    ops = []
    try:
        if b.rc != 0:
            chk.violation("move:failed", "plotter failed to move a plot to another file system: rc=%s" % b.rc, b.repro())
            return
        seen, go = {}, False
        for n, call, ret, mode, p1, p2, inj in b.ops():
            if "/final/plot" in p1 or "/final/plot" in p2 or (go and "/stage/plot" in p1):
                go = True
                where = "/final/plot" if "/final/plot" in p1 + p2 else "/stage/plot"
                if where == "/stage/plot" and call in ("write", "openw"):
                    continue
                seen[(call, where)] = seen.get((call, where), 0) + 1
                ops.append((call, where, seen[(call, where)]))
    finally:
        b.clean()
    rng = random.Random(chk.seed + 5)
    ops = [o for o in ops if o[1] == "/final/plot"]
    work = []
    for call, where, i in ops:
        j = i - (1 if call == "rename" else 0)
        if j < 1:
            continue
        work.append("%s:KILL:%d:1:%s" % (call, j, where))
        if call in ERRS:
            work.append("%s:%s:%d:1:%s" % (call, rng.choice(ERRS[call]), j, where))
    if chk.quick and len(work) > 70:
        work = rng.sample(work, 70)

    def one(a):
        i, f = a
        tr = iof.Traced(chk, t, faults=[exdev, f], tag="mv%d" % i, **cfg).go()
        try:
            if tr.run.hang:
                chk.violation("move:hang", "the plotter stopped making progress: fault %s while moving" % f, tr.repro())
                return
            names = iof.judge_plots(chk, t, tr, base, "move:torn", "move with %s" % f)
            killed = ":KILL:" in f
            if not killed and tr.rc == 0 and not any("/final/" in x for x in names):
                chk.violation("move:success", "success without a final plot: %s" % f, tr.repro())
            if not names:
                chk.violation("move:lost", "no complete plot left: %s rc=%s" % (f, tr.rc), tr.repro())
            if tr.rc == 0 and not f.startswith("unlink") and tr.run.files() != ["final/" + os.path.basename(names[0])]:
                chk.violation("move:left", "files left after success with %s: %s" % (f, tr.run.files()), tr.repro())
            chk.case(("plotter", f) if tr.fired()[1] or killed else None, {"plotter_move": f, "rc": tr.rc, "plots": len(names)})
        finally:
            tr.clean()
    P.parallel(one, list(enumerate(work)))
