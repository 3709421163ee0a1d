"""C24: generated command lines against an independent acceptance model; rejected ones must leave nothing, accepted ones must plot correctly."""
import os, random, resource, shutil, time
from .. import build as B, plots as P, matrix as M
RULE = ("one case = one command line of the real binary: valid base with one to three options replaced by boundary, malformed, contradictory or unusable values; the model says reject (non-zero status, a message, no plotting, "
        "no file left), accept (exit 0, the plots verified) or start (accepted, too large to finish here: first table being written); distinct by arguments")
ASSUMPTIONS = ["runs to completion only for k 16..18; larger accepted k are observed to start", "validity of a key as a curve point is the key library's business (stand-in here)"]

GOODK = lambda rng: bytes([0x80 | rng.getrandbits(6)]).hex() + "%094x" % rng.getrandbits(376)
HARD = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
if HARD == resource.RLIM_INFINITY:
    HARD = 1 << 30
BIG = [2147483647, -2147483648, 4294967296, 4294967312, 4294967300, 18446744073709551632, "99999999999999999999999"]
JUNK = ["abc", "16abc", "1e1", "16.0", "--", "0x", "sixteen"]
INT = lambda s: int(s, 0) if str(s).startswith("0x") else int(s)


ODD = ["od d/", "a.plot/", "b.tmp/", "p%s%n%d/", "\u00fc-plot-k32/", "a.plot.tmp/deep/er/", "x" * 120 + "/", "-dash/", "lnk/"]
PLAIN = ("t1", "t2", "final", "stage")


def pick(rng, usual):
    return rng.choice(usual) if rng.random() < 0.8 else rng.choice(BIG + JUNK)


def base(rng):
    return dict(k=16, r=rng.choice([1, 2, 3, 4, 8]), u=16, v=None, K=None, n=None, f=GOODK(rng), p=GOODK(rng), c=None, i=None, t="t1/", t2=None, d=None, s=None, G=False, D=False, w=False, Z=False, x=None, lim=None)


def mutate(rng, o, what):
    """changes one option; values on both sides of every boundary"""
    if what == "k":
        o["k"] = pick(rng, [-1, 0, 1, 15, 16, 17, 18, 20, 24, 31, 32, 33, 34, 35, 64, 272])
    elif what == "r":
        o["r"] = pick(rng, [-1, 0, 1, 2, 16, 63, 200, 1024, 1025, 4096])
    elif what == "u":
        o["u"] = pick(rng, [-16, -1, 0, 1, 3, 4, 5, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 63, 64, 100, 128, 256, 511, 512, 1000, 1024, 2047, 2048, 4095, 4096, 65536, 131071, 131072])
        if rng.random() < 0.7:
            o["v"] = rng.choice([4, 16, 8, 256])
    elif what == "v":
        o["v"] = pick(rng, [-16, -1, 0, 1, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 64, 128, 255, 256, 511, 512, 1024, 65536, 131072])
    elif what == "K":
        o["K"] = pick(rng, [-1000, -1, 0, 1, 2, 3, 7, 50, 1024, 1025, 100000])
        o["r"] = rng.choice([1, 2])
    elif what == "n":
        o["n"] = rng.choice([0, 1, 2, 3] + JUNK)
    elif what in ("f", "p"):
        good = o[what] or GOODK(rng)
        o[what] = rng.choice([None, good[:-2], good[:-1], good + "0", good + "00", good * 2, good[:94] + "xy", "0x" + good, "0x" + good[2:], good[:40] + "O" + good[41:], good[:60] + " " + good[61:], "zz" * 48,
                              "00" * 48, "c0" + good[2:], good.upper(), good[:50] + good[50:].upper(), good[:2], good[:64]])
    elif what == "c":
        h = bytes(rng.getrandbits(8) for _ in range(32))
        a = P.bech32m("xch", h)
        j = rng.randrange(4, len(a))
        flip = a[:j] + rng.choice([x for x in P.CH if x != a[j]]) + a[j + 1:]
        o["p"] = None
        o["c"] = rng.choice([a, a.upper(), P.bech32m("txch", h), flip, flip, a[:-1], a + "q", P.bech32m("xch", h, 1), P.bech32m("xch", h[:31]), P.bech32m("xch", h + b"\1"), P.bech32m("xch", h[:20]),
                             a[:20] + a[20:].upper(), h.hex(), "xch1", "x", a.replace("1", "", 1)])
    elif what == "both":
        o["c"] = P.contract(rng.random())
    elif what == "neither":
        o["p"] = None
    elif what == "i":
        g = P.rand_id(rng)
        o["i"] = rng.choice([g, g[:-1], g[:-2], g + "0", g + "00", g * 2, g[:62] + "zz", "0x" + g, "0x" + g[2:], g.upper(), g[:2], "g" * 64, g[:10] + "-" + g[11:]])
    elif what == "dir":
        name = rng.choice(["t", "t2", "d", "s"])
        own = {"t": "t1/", "t2": "t2/", "d": "final/", "s": "stage/"}[name]
        o[name] = rng.choice([None, own, own, "./" + own, "@/" + own, own[:-1], "missing/", "file/", "@/missing/x/", "t1/", "t1/../" + own, own + "./", "@/" + own[:-1]] if rng.random() < 0.65 else ODD[:-2] + ["@/" + x for x in ODD] + ["./-dash/", "lnk/", "@//" + own, own + "/"])
        if name == "s" and rng.random() < 0.3:
            o["G"] = True
    elif what == "lim":
        o["u"] = rng.choice([16, 64, 256, 1024])
        o["v"] = 16
        o["lim"] = (min(HARD, rng.choice([20, 60, 100, 150, 300, 1000, 1200])),) * 2 if rng.random() < 0.7 else (rng.choice([20, 40, 80]), min(4000, HARD))
    elif what == "flags":
        for x in "GDwZ":
            o[x] = rng.random() < 0.4
        if o["G"] and rng.random() < 0.5:
            o["s"] = "stage/"
        o["n"] = rng.choice([1, 2])
    elif what == "x":
        o["x"] = pick(rng, [0, 1, 8444, 9699, 11337, 65535, -1])


def parse(v):
    """an int option: value or None if it is not a decimal int in range"""
    try:
        x = int(str(v))
    except ValueError:
        return None
    return x if -2 ** 31 <= x < 2 ** 31 else None


def model(o, kmax):
    """accept | reject | start | either"""
    ints = {x: (parse(o[x]) if o[x] is not None else None) for x in ("k", "r", "u", "v", "K", "n", "x")}
    if any(o[x] is not None and ints[x] is None for x in ints):
        return "reject", "number"
    hexok = lambda s, n: len(s) == 2 * n and all(c in "0123456789abcdefABCDEF" for c in s)
    k, r, u, v = ints["k"], ints["r"], ints["u"], ints["v"]
    if not 16 <= k <= kmax:
        return "reject", "k"
    if (o["p"] is None) == (o["c"] is None):
        return "reject", "pool"
    if o["f"] is None or not hexok(o["f"], 48) or int(o["f"][:2], 16) & 0xC0 != 0x80:
        return "reject", "farmer"
    if o["p"] is not None and (not hexok(o["p"], 48) or int(o["p"][:2], 16) & 0xC0 != 0x80):
        return "reject", "pool"
    if o["c"] is not None and not good_contract(o["c"]):
        return "reject", "contract"
    if o["i"] is not None and not hexok(o["i"], 32):
        return "reject", "id"
    if o["t"] is None:
        return "reject", "tmpdir"
    if o["s"] and o["G"]:
        return "reject", "stage and toggle"
    for x in ("t", "t2", "d", "s"):
        if o[x] is not None and (not o[x].endswith("/") or "missing" in o[x] or "file" in o[x]):
            return "reject", "directory " + x
    if not 1 <= r <= 1024:
        return "reject", "threads"
    if ints["K"] is not None and not 1 <= ints["K"] <= 1024:
        return "reject", "multiplier"
    lg = lambda b: b.bit_length() - 1 if b >= 16 else b
    if v is None or v <= 0:
        v = u
    if not 4 <= lg(u) <= 16 or not 4 <= lg(v) <= 16 or 2 * lg(u) > k + 6 or 2 * lg(v) > k:
        return "reject", "buckets"
    need = 2 ** max(lg(u), lg(v))
    if o["lim"] or HARD < 70000:
        hard = min(HARD, o["lim"][1] if o["lim"] else HARD)
        if hard < need:
            return "reject", "open files"
        if hard < need + 2 * r + 32 + 60:
            return "either", "open files"
    if o["n"] is not None and ints["n"] == 0:
        return "none", "no plots"
    return ("accept" if k <= 18 else "start"), "ok"


def good_contract(a):
    if a != a.lower() and a != a.upper():
        return False
    a = a.lower()
    if "1" not in a:
        return False
    hrp, d = a.rsplit("1", 1)
    if len(d) != 58 or not hrp or any(x not in P.CH for x in d):
        return False
    bits = "".join("{:05b}".format(P.CH.index(x)) for x in d[:52])
    return P.bech32m(hrp, bytes(int(bits[i:i + 8], 2) for i in range(0, 256, 8))) == a


LONG = {"k": "size", "r": "threads", "u": "buckets", "v": "buckets3", "K": "rmulti2", "n": "count", "f": "farmerkey", "p": "poolkey", "c": "contract", "i": "id", "t": "tmpdir", "t2": "tmpdir2", "d": "finaldir", "s": "stagedir",
        "x": "port", "G": "tmptoggle", "D": "directout", "w": "waitforcopy", "Z": "unique"}


def argv(rng, o, d):
    parts = []
    for x, v in o.items():
        if x == "lim" or v is None or v is False:
            continue
        if v is True:
            parts.append(rng.choice([["-" + x], ["--" + LONG[x]]]))
            continue
        v = str(v).replace("@", d)
        s = "2" if x == "t2" else x
        parts.append(rng.choice([["-" + s, v], ["--" + LONG[x], v], ["--%s=%s" % (LONG[x], v)]]) if not v.startswith("-") else ["--%s=%s" % (LONG[x], v)])
    rng.shuffle(parts)
    return [y for p in parts for y in p]


def run(chk):
    t = M.tools(chk, [B.plotter(k34=True)])
    rng = random.Random(chk.seed * 55 + 24)
    kinds = ["k", "r", "u", "u", "v", "v", "K", "f", "p", "c", "c", "i", "dir", "dir", "dir", "lim", "flags", "x", "n", "both", "neither"]
    work = []
    for j in range(chk.n(640, 9000)):
        o = base(rng)
        for w in [kinds[j % len(kinds)]] + rng.sample(kinds, rng.choice([0, 0, 0, 0, 1, 2])):
            mutate(rng, o, w)
        work.append((j, o, rng.random() < 0.15, rng.getrandbits(30)))
    for j, g in enumerate(M.GROWN_IDS):
        o = base(rng)
        o["i"], o["v"] = g, [16, 256, 8, 32, 64][j]
        work.append((len(work), o, j == 3, rng.getrandbits(30)))
    stopped = [0]

    def one(a):
        j, o, wide, s = a
        r2 = random.Random(s)
        want, why = model(o, 34 if wide else 32)
        if want == "accept" and (parse(o["r"]) > 300 or (parse(o["K"] or 1)) * parse(o["r"]) > 1100):
            with chk.lock:
                stopped[0] += 1
                if stopped[0] > chk.n(8, 60):
                    return          # a few thousand threads each: only some of them
        d = os.path.join(chk.scratch, "cli%d" % j)
        for x in PLAIN + tuple(ODD[:-1]):
            os.makedirs(os.path.join(d, x))
        os.symlink("stage", os.path.join(d, "lnk"))
        open(os.path.join(d, "file"), "w").close()
        cmd = [t["chia_plot_k34" if wide else "chia_plot"]] + argv(r2, o, d)
        if o["lim"]:
            cmd = ["bash", "-c", "ulimit -Sn %d && ulimit -Hn %d && exec \"$@\"" % (o["lim"][0], o["lim"][1]), "x"] + cmd
        out = os.path.join(d, "out.txt")
        rep = {"argv": cmd, "cwd": d, "expected": want, "why": why}
        try:
            p = P.Proc(cmd, {"VERIF_RAND": str(s + 1)}, d, 20, 200, out)
            if want == "start":
                t0 = time.time()
                started = False
                while p.p.poll() is None and time.time() - t0 < 60 and not started:
                    started = any(os.path.getsize(os.path.join(d, x, f)) > 0 for x in ("t1", "t2", "lnk", *ODD) for f in list_(os.path.join(d, x)) if os.path.isfile(os.path.join(d, x, f)))
                    time.sleep(0.02)
                over = p.p.poll() is not None
                p.kill()
                p.wait()
                text = p.output(3000)
                if not started and over:
                    chk.violation("refused:" + why, "valid arguments not accepted (exit %s): %s: %s" % (p.p.returncode, show(o), text[-200:]), rep)
                elif not started:
                    raise P.HarnessError("no output after 60 s: %s" % show(o))
                chk.observe("started")
                chk.case(("start", str(sorted(map(str, o.items())))))
                return
            rc = p.wait()
            text = p.output(6000)
            rep["output"] = text[-1500:]
            if p.timeout:
                raise P.HarnessError("still busy after 200 s: %s" % show(o))
            files = [(os.path.relpath(x, d), f) for x, _, fs in os.walk(d) for f in fs if not (x == d and f in ("file", "out.txt"))]
            plots = [os.path.join(d, x, f) for x, f in files if f.endswith(".plot")]
            if p.hang:
                chk.violation("hang", "no progress: %s" % show(o), rep)
            elif want == "reject" or (want == "either" and rc != 0):
                if rc == 0:
                    chk.violation("accepted:" + why, "invalid %s accepted: %s" % (why, show(o)), rep)
                elif rc in (-11, -7, -8, -4):
                    chk.violation("crash:" + why, "crash (signal %d) on invalid %s: %s" % (-rc, why, show(o)), rep)
                else:
                    if not text.strip():
                        chk.violation("silent:" + why, "invalid %s rejected without a message: %s" % (why, show(o)), rep)
                    if files or "[P1]" in text:
                        chk.violation("late:" + why, "invalid %s noticed only after plotting started or with files left (%s): %s" % (why, files[:3], show(o)), rep)
                chk.observe("rejected")
                chk.observe("rejected_for_" + why.replace(" ", "_"))
            elif want == "none":
                if rc != 0 or files:
                    chk.violation("zero", "count 0 gave exit %d and files %s" % (rc, files[:3]), rep)
            else:
                n = parse(o["n"] or 1)
                if o["i"] is not None:
                    n = None
                if rc != 0:
                    chk.violation("refused:" + why if not files and "[P1]" not in text else "failed:" + why, "valid arguments gave exit %d: %s: %s" % (rc, show(o), text[-300:]), rep)
                elif (n is not None and len(plots) != n) or not plots or len(files) != len(plots):
                    chk.violation("plots", "%d plots and files %s instead of %s plots: %s" % (len(plots), files[:4], n, show(o)), rep)
                else:
                    for q in P.plotcheck(t["plotcheck"], plots, ref=(j % 4 == 0)):
                        if q["errors"]:
                            chk.violation("wrong:" + q["errors"][0]["key"], "accepted configuration gave a wrong plot: %s: %s" % (q["errors"][0]["msg"], show(o)), rep)
                        if q["k"] != parse(o["k"]):
                            chk.violation("wrong:k", "plot of size %d: %s" % (q["k"], show(o)), rep)
                    chk.observe("accepted_and_verified", len(plots))
            chk.case((want, str(sorted(map(str, o.items())))), {"args": show(o), "expected": want, "why": why} if j < 12 else None)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    P.parallel(one, work)
    basics(chk, t)


def basics(chk, t):
    for a in ([], ["--help"], ["--version"]):
        d = os.path.join(chk.scratch, "b")
        os.makedirs(d, exist_ok=True)
        p = P.Proc([t["chia_plot"]] + a, {}, d, 20, 60, os.path.join(chk.scratch, "b.txt"))
        rc = p.wait()
        if rc != 0 or os.listdir(d) or not p.output().strip():
            chk.violation("basic", "%s gave exit %d and files %s" % (a, rc, os.listdir(d)), {"argv": a})
        chk.case(("basic", str(a)))


def show(o):
    return {x: o[x] for x in o if o[x] not in (None, False)}


def list_(d):
    try:
        return sorted(os.listdir(d))
    except OSError:
        return []
