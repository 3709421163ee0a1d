"""Running the real plotter binary and judging its output with the independent reader/reference."""
import glob, hashlib, json, os, random, re, shutil, signal, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from .core import HarnessError, enough
from . import build as B

PK = "80" + "11" * 47
FK = "80" + "2c" * 47


def rand_id(rng):
    return "%064x" % rng.getrandbits(256)


CH = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"


def bech32m(hrp, data, const=0x2bc830a3):
    def polymod(v):
        c = 1
        for x in v:
            b = c >> 25
            c = (c & 0x1ffffff) << 5 ^ x
            for i, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)):
                if b >> i & 1:
                    c ^= g
        return c
    bits = "".join("{:08b}".format(x) for x in data)
    bits += "0" * (-len(bits) % 5)
    d = [int(bits[i:i + 5], 2) for i in range(0, len(bits), 5)]
    e = [ord(c) >> 5 for c in hrp] + [0] + [ord(c) & 31 for c in hrp]
    m = polymod(e + d + [0] * 6) ^ const
    return hrp + "1" + "".join(CH[x] for x in d + [(m >> 5 * (5 - i)) & 31 for i in range(6)])


def contract(n):
    """contract address of a 32 byte puzzle hash derived from n"""
    h = hashlib.sha256(str(n).encode()).digest()
    return bech32m("xch", h)


def contract_hash(n):
    return hashlib.sha256(str(n).encode()).hexdigest()


class Proc:
    """run a command with a stall detector: 'hang' only if it is alive, burns no CPU and every thread sleeps for `stall` s"""

    def __init__(self, cmd, env=None, cwd=None, stall=20, limit=240, out=None):
        self.cmd, self.stall, self.limit = cmd, stall, limit
        e = dict(os.environ)
        for k in list(e):
            if k.startswith("VERIF_P") or k.startswith("VERIF_R") or k.startswith("VERIF_W"):
                if k not in ("VERIF_REPO",):
                    del e[k]
        e.update(env or {})
        self.out_path = out
        self.f = open(out, "wb") if out else subprocess.DEVNULL
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=self.f, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True)
        self.hang = False
        self.timeout = False

    def _cpu(self):
        total, sleeping, n = 0, True, 0
        pids = [self.p.pid]
        try:
            for t in os.listdir("/proc/%d/task" % self.p.pid):
                try:
                    for c in open("/proc/%d/task/%s/children" % (self.p.pid, t)).read().split():
                        pids.append(int(c))
                except OSError:
                    pass
        except OSError:
            return None
        for pid in pids:
            try:
                for t in os.listdir("/proc/%d/task" % pid):
                    s = open("/proc/%d/task/%s/stat" % (pid, t)).read()
                    f = s[s.rindex(")") + 2:].split()
                    total += int(f[11]) + int(f[12])
                    if f[0] not in ("S", "Z", "X"):
                        sleeping = False
                    n += 1
            except OSError:
                sleeping = False
        return total, sleeping, n

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def wait(self):
        t0 = time.time()
        last, since = None, time.time()
        while True:
            try:
                self.p.wait(0.05 if time.time() - t0 < 2 else 0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            c = self._cpu()
            now = time.time()
            if c is None or last is None or c[0] > last or not c[1]:
                since = now
            last = c[0] if c else None
            if now - since > self.stall:
                self.hang = True
                self.kill()
                break
            if now - t0 > self.limit:
                self.timeout = True
                self.kill()
                break
        if self.out_path:
            self.f.close()
        return self.p.returncode

    def output(self, n=4000):
        if not self.out_path or not os.path.exists(self.out_path):
            return ""
        return open(self.out_path, "rb").read()[-n:].decode("utf8", "replace")


_rl = {}


class PlotRun:
    def __init__(self, chk, binary, k=16, pid=None, threads=4, u=16, v=None, n=1, rand=1, perturb=None, pmode=0,
                 rchunk=None, wchunk=None, extra=(), env=None, tag="", dirs="one", wrap=(), stall=20, limit=240,
                 pool=PK, farmer=FK, contract=None, K=None, root=None):
        self.chk, self.k, self.pid = chk, k, pid
        self.dir = root or os.path.join(chk.scratch, "run_%s_%d" % (tag, id(self)))
        os.makedirs(self.dir, exist_ok=bool(root))
        self.t1, self.t2, self.fd, self.sd = [os.path.join(self.dir, x) + "/" for x in ("t1", "t2", "final", "stage")]
        for d in (self.t1, self.t2, self.fd, self.sd):
            os.makedirs(d, exist_ok=bool(root))
        a = [binary, "-k", str(k), "-r", str(threads), "-u", str(u), "-n", str(n), "-t", self.t1, "-f", farmer]
        if contract:
            a += ["-c", contract]
        elif pool:
            a += ["-p", pool]
        if v is not None:
            a += ["-v", str(v)]
        if pid:
            a += ["-i", pid]
        if K:
            a += ["-K", str(K)]
        if dirs in ("two", "final", "all"):
            a += ["-2", self.t2]
        if dirs in ("final", "all"):
            a += ["-d", self.fd]
        if dirs == "all":
            a += ["-s", self.sd]
        a += list(extra)
        self.args = a
        e = {"VERIF_RAND": str(rand)}
        if rchunk:
            e["VERIF_READ_CHUNK"] = str(rchunk)
        if wchunk:
            e["VERIF_WRITE_CHUNK"] = str(wchunk)
        if perturb is not None:
            e["VERIF_PERTURB"] = str(perturb)
            e["VERIF_PERTURB_MODE"] = str(pmode)
            e["LD_PRELOAD"] = _rl["perturb"]
            e["VERIF_PERTURB_LOG"] = os.path.join(self.dir, "perturb.log")
        e.update(env or {})
        self.env = e
        self.wrap = list(wrap)
        self.stall, self.limit = stall, limit
        self.desc = {"k": k, "id": pid, "r": threads, "u": u, "v": v, "n": n, "rchunk": rchunk, "wchunk": wchunk,
                     "perturb": perturb, "pmode": pmode if perturb is not None else None, "dirs": dirs, "K": K, "extra": list(extra)}

    def start(self):
        self.out = os.path.join(self.dir, "out.txt")
        self.proc = Proc(self.wrap + self.args, self.env, self.dir, self.stall, self.limit, self.out)
        return self

    def run(self):
        self.start()
        self.rc = self.proc.wait()
        if self.proc.timeout:
            raise HarnessError("plotter still busy after %d s: %s" % (self.limit, self.desc))
        return self

    @property
    def hang(self):
        return self.proc.hang

    def perturb_stats(self):
        try:
            f = open(os.path.join(self.dir, "perturb.log")).read().split()
            return {"ops": int(f[2]), "delays": int(f[3]), "fp": f[5]}
        except (OSError, IndexError):
            return None

    def plots(self, pat="*.plot"):
        return sorted(glob.glob(os.path.join(glob.escape(self.dir), "*", pat)))

    def files(self):
        r = []
        for d in (self.t1, self.t2, self.fd, self.sd):
            for f in sorted(os.listdir(d)):
                r.append(os.path.join(os.path.basename(d.rstrip("/")), f))
        return r

    def repro(self):
        return {"argv": self.wrap + self.args, "env": self.env, "config": self.desc, "rc": getattr(self, "rc", None),
                "output_tail": self.proc.output(1500) if hasattr(self, "proc") else ""}

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def set_perturb(path):
    _rl["perturb"] = path


def plotcheck(binary, files, ref=False, noeval=False, pmax=None):
    cmd = [binary] + (["--pmax", str(pmax)] if pmax else []) + (["--ref"] if ref else []) + (["--noeval"] if noeval else []) + list(files)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if p.returncode:
        raise HarnessError("plotcheck failed (%d): %s" % (p.returncode, p.stderr[-500:]))
    return [json.loads(l) for l in p.stdout.splitlines()]


def parallel(fn, items, workers=8):
    with ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(lambda x: None if enough() else fn(x), it) for it in items]
        res, err = [], None
        for f in futs:
            try:
                res.append(f.result())
            except HarnessError as e:
                err = err or e
                res.append(None)
        if err:
            raise err
        return res
