"""Runs a harness binary and turns its event protocol (harness/hx.hpp) into verdicts and evidence."""
import json, os, threading
from .core import HarnessError
from .plots import Proc
from . import san

_n = [0]
_lock = threading.Lock()

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1:exitcode=99",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1",
}


class Result:
    pass


def run(chk, binary, args=(), env=None, key="", stall=25, limit=400, crash_is_violation=True, wrap=(), seed=None, hang_is_violation=True, only_san=False):
    with _lock:
        _n[0] += 1
        n = _n[0]
    d = os.path.join(chk.scratch, "h%d" % n)
    os.makedirs(d)
    e = dict(SAN_ENV)
    e.update({"VERIF_HX": os.path.join(d, "hx"), "VERIF_SEED": str(chk.seed if seed is None else seed), "VERIF_TIER": chk.tier, "VERIF_SCRATCH_DIR": d})
    e.update(env or {})
    p = Proc(list(wrap) + [binary] + [str(a) for a in args], e, d, stall, limit, os.path.join(d, "out"))
    rc = p.wait()
    r = Result()
    r.rc, r.dir, r.hang, r.out = rc, d, p.hang, p.output(6000)
    r.samples, r.violations, done, last = [], [], False, ""
    lines = []
    if os.path.exists(os.path.join(d, "hx")):
        lines = open(os.path.join(d, "hx"), errors="replace").read().splitlines()
    pre = (key + ":") if key else ""
    rep = {"harness": [binary] + [str(a) for a in args], "env": {k: e[k] for k in e if k.startswith("VERIF") or k == "LD_PRELOAD"}}
    for l in lines:
        t, _, rest = l.partition(" ")
        if t == "V":
            k, _, msg = rest.partition(" ")
            r.violations.append((pre + k, msg))
            if not only_san:
                chk.violation(pre + k, msg, rep)
        elif t == "O":
            a, b = rest.rsplit(" ", 1)
            chk.observe(a, int(b))
        elif t == "M":
            a, b = rest.rsplit(" ", 1)
            chk.observe_max(a, int(b))
        elif t == "C":
            chk.case(pre + rest)
        elif t == "N":
            chk.cases(int(rest))
        elif t == "S":
            with chk.lock:
                if len(chk.samples) < 12:
                    chk.samples.append(rest)
        elif t == "A":
            last = rest
        elif t == "DONE":
            done = True
    r.done, r.last = done, last
    if p.timeout:
        raise HarnessError("harness %s %s still busy after %d s" % (os.path.basename(binary), list(args), limit))
    if only_san:
        san.report(chk, os.path.join(d, "out"), rc, "%s %s" % (os.path.basename(binary).split("-")[0], last), rep)
        return r
    if p.hang and hang_is_violation:
        chk.violation(pre + "hang", "no progress while: %s %s" % (last, list(args)), dict(rep, output=r.out[-1500:]))
    elif not done and crash_is_violation and not p.hang:
        chk.violation(pre + "crash", "terminated with %s while: %s; %s" % (rc, last, summarize(r.out)), dict(rep, output=r.out[-3000:]))
    if "WARNING: ThreadSanitizer" in r.out or rc == 66:
        for kind, k, text in san.tsan(open(os.path.join(d, "out"), errors="replace").read(4 << 20)):
            chk.violation(pre + k, "%s (%s)" % (k, last), dict(rep, report=text))
    return r


def summarize(out):
    for l in out.splitlines():
        if "ERROR: AddressSanitizer" in l or "runtime error:" in l or "WARNING: ThreadSanitizer" in l or "what():" in l or "terminate called" in l:
            return l.strip()[:300]
    return out.strip()[-200:]
