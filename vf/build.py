"""Builds the harnesses and the real plotter from REPO's current working tree (never the default build's output)."""
import hashlib, os, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
from .core import VERIF, REPO, HarnessError

BUILD = os.path.join(VERIF, "build")

SAN = {
    "plain": ["-O1"],
    "o2": ["-O2"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
    # whole plotter: the checks that can fire in it, and the library's own container checks (a full set doubles the build time)
    "asanp": ["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
              "-fsanitize=address,shift,signed-integer-overflow,integer-divide-by-zero,bounds,float-cast-overflow,float-divide-by-zero,bool,enum,return,unreachable,alignment,null,vla-bound",
              "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}
INC = ["-I" + os.path.join(VERIF, "standins"), "-I" + os.path.join(REPO, "lib"), "-I" + os.path.join(REPO, "include")]
FSE_LIB = ["fse_compress", "fse_decompress", "entropy_common", "hist"]


def _tree_files(*roots):
    for r in roots:
        if os.path.isfile(r):
            yield r
            continue
        for d, dirs, files in os.walk(r):
            dirs[:] = sorted(x for x in dirs if x not in (".git", "_build", "build", "__pycache__"))
            for f in sorted(files):
                if f.endswith((".c", ".cpp", ".h", ".hpp", ".S", ".inc")):
                    yield os.path.join(d, f)


_hash_cache = {}


def tree_hash():
    if "h" not in _hash_cache:
        h = hashlib.sha256()
        for f in _tree_files(os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(REPO, "lib"),
                             os.path.join(VERIF, "standins"), os.path.join(VERIF, "harness"),
                             os.path.join(VERIF, "ref"), os.path.join(VERIF, "tools")):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
        _hash_cache["h"] = h.hexdigest()[:24]
    return _hash_cache["h"]


def _run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise HarnessError("build of %s failed:\n%s\n%s" % (what, " ".join(cmd), p.stdout[-6000:]))


class Target:
    """sources: list of (path, lang, extra flags)"""
    def __init__(self, name, sources, san="plain", cxx="g++", cc="gcc", flags=(), libs=("-lpthread",), shared=False):
        self.name, self.sources, self.san, self.cxx, self.cc = name, sources, san, cxx, cc
        self.flags, self.libs, self.shared = list(flags), list(libs), shared
        self.optional = False
        self.inc = []

    def opt(self):
        """internal interfaces may legitimately change: without this target the check falls back to its other parts"""
        self.optional = True
        return self

    def out(self):
        key = hashlib.sha256(("%s|%s|%s|%s|%s|%s|%s" % (tree_hash(), self.sources, self.san, self.cxx, self.flags, self.libs, self.shared)).encode()).hexdigest()[:12]
        return os.path.join(BUILD, tree_hash(), "%s-%s-%s" % (self.name, self.san, key))


_pool = ThreadPoolExecutor(8)
skipped = []


def build(targets):
    """build all targets in parallel, returns {name: path}"""
    res, work = {}, []
    for t in targets:
        out = t.out()
        res[t.name] = out
        if os.path.exists(out) or any(w[1] == out for w in work):
            continue
        os.makedirs(os.path.dirname(out), exist_ok=True)
        objs = []
        for i, s in enumerate(t.sources):
            path, extra = (s, []) if isinstance(s, str) else (s[0], list(s[1]))
            o = "%s.%d.%d.o" % (out, os.getpid(), i)
            isc = path.endswith(".c")
            cmd = [t.cc if isc else t.cxx] + ([] if isc else ["-std=c++17"]) + SAN[t.san] + ["-w"] + (["-fPIC"] if t.shared else []) \
                + t.inc + INC + t.flags + extra + ["-c", path, "-o", o]
            objs.append((o, _pool.submit(_run, cmd, t.name + ":" + os.path.basename(path))))
        work.append((t, out, objs))
    for t, out, objs in work:
        err = None
        for o, f in objs:
            try:
                f.result()
            except HarnessError as e:
                err = err or e
        if err:
            for o, _ in objs:
                if os.path.exists(o):
                    os.unlink(o)
            if not t.optional:
                raise err
            print("note: %s does not build against this tree, its part is left out:\n%s" % (t.name, str(err)[-700:]), flush=True)
            skipped.append(t.name)
            del res[t.name]
            continue
        tmp = "%s.%d.tmp" % (out, os.getpid())
        cmd = [t.cxx] + SAN[t.san] + (["-shared"] if t.shared else []) + [o for o, _ in objs] + ["-o", tmp] + t.libs
        try:
            _run(cmd, t.name + " (link)")
        except HarnessError as e:
            if not t.optional:
                raise
            print("note: %s does not link against this tree, its part is left out:\n%s" % (t.name, str(e)[-700:]), flush=True)
            skipped.append(t.name)
            del res[t.name]
        else:
            os.replace(tmp, out)
        for o, _ in objs:
            os.unlink(o)
    # keep at most the trees in use
    try:
        now = tree_hash()
        others = sorted((d for d in os.listdir(BUILD) if d != now), key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        import shutil
        for d in others[:-1]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    except OSError:
        pass
    return res


def V(*p):
    return os.path.join(VERIF, *p)


def R(*p):
    return os.path.join(REPO, *p)


FSE_SRC = [R("lib/FSE/lib", n + ".c") for n in FSE_LIB]
B3 = [V("standins/blake3.c")]


def plotter(san="plain", k34=False, name=None):
    flags = ['-DGIT_COMMIT_HASH="verif"'] + (["-DCHIA_K34=1"] if k34 else [])
    return Target(name or ("chia_plot" + ("_k34" if k34 else "") + ("" if san == "plain" else "_" + san)),
                  [R("src/chia_plot.cpp"), R("src/settings.cpp"), V("harness/chunks.cpp"), R("lib/chacha8.c")] + FSE_SRC + B3,
                  san=san, flags=flags)


def narrow(bits):
    """[the plotter with stored positions of only `bits` bits], so that small plots reach the limit of k32 and k34; [] if the width is not where it was"""
    dst = os.path.join(BUILD, tree_hash(), "narrow%d" % bits)
    found = False
    for f in _tree_files(R("include")):
        old = open(f, errors="replace").read()
        new = re.sub(r"(\bconstexpr\s+\w+\s+PMAX\s*=\s*)\d+", r"\g<1>%d" % bits, old)
        if new != old:
            found = True
            o = os.path.join(dst, os.path.relpath(f, R("include")))
            os.makedirs(os.path.dirname(o), exist_ok=True)
            open(o, "w").write(new)
    if not found:
        skipped.append("chia_plot_narrow%d" % bits)
        return []
    t = plotter(name="chia_plot_narrow%d" % bits)
    t.inc = ["-I", dst]
    return [t.opt()]


def plotcheck():
    return Target("plotcheck", [V("ref/plotcheck.cpp")] + B3, san="o2")


def perturb():
    return Target("perturb.so", [V("tools/perturb.c")], shared=True, libs=["-ldl", "-lpthread"])


def fastsleep():
    return Target("fastsleep.so", [V("tools/fastsleep.c")], shared=True, libs=["-ldl"])


def slowio():
    return Target("slowio.so", [V("tools/slowio.c")], shared=True, libs=["-ldl"])


def iotrace():
    return Target("iotrace", [V("tools/iotrace.cpp")])


def harness(src, name=None, san="plain", k34=False, extra_src=(), fse=False, fse_san=True, flags=()):
    srcs = [V("harness", src)] + list(extra_src)
    if fse:
        srcs += FSE_SRC
    return Target(name or (src.split(".")[0] + ("_k34" if k34 else "") + ("" if san == "plain" else "_" + san)), srcs, san=san,
                  flags=list(flags) + (["-DCHIA_K34=1"] if k34 else []))
