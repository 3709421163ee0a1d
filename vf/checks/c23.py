"""C23: published plots carry the id, memo and name that an independent recomputation gives for the keys on the command line."""
import hashlib, os, random, time
from .. import build as B, plots as P, matrix as M, keys
RULE = ("one case = one published plot: header and name parsed, memo compared with the given keys, id recomputed from the memo's master key, the keys, the port and the unique flag; "
        "distinct by id")
ASSUMPTIONS = ["the BLS group is replaced by a stand-in with the same algebra of calls; what is judged is which keys and bytes are combined in which order",
               "sampled keys, ports, flags, plots per run"]


def gen(rng, i):
    key = lambda: bytes([0x80 | rng.getrandbits(6)]) + rng.getrandbits(376).to_bytes(47, "big")
    c = dict(port=rng.choice([8444, 8444, 9699, 11337, 11337, 0, 1, 65535, 58444, 2147483647]), unique=rng.random() < 0.35, n=rng.choice([1, 1, 2, 3]), farmer=key(), pool=None, puzzle=None, fixed=None,
             k=rng.choice([16, 16, 16, 17, 18]), opts=[])
    if rng.random() < 0.5:
        c["pool"] = key()
    else:
        c["puzzle"] = rng.choice([bytes(32), b"\xff" * 32, b"\x80" + bytes(31), bytes(31) + b"\1"] + [rng.getrandbits(256).to_bytes(32, "big")] * 6)
    if rng.random() < 0.15:
        c["fixed"], c["n"] = rng.getrandbits(256).to_bytes(32, "big"), 1
    if rng.random() < 0.1:
        c["farmer"] = b"\x80" + bytes(47) if rng.random() < 0.5 else b"\xbf" + b"\xff" * 47
    c["upper"] = rng.random() < 0.2
    c["hrp"] = rng.choice(["xch", "xch", "txch"])
    c["dirs"] = rng.choice(["one", "two", "final", "all"])
    c["wide"] = rng.random() < 0.25
    c["env"] = rng.random() < 0.5
    return c


def run(chk):
    t = B.build([B.plotter(), B.plotter(k34=True)])
    rng = random.Random(chk.seed * 77 + 23)
    work = [gen(rng, i) for i in range(chk.n(150, 1500))]
    seen = {}

    def one(a):
        i, c = a
        hx = lambda b: b.hex().upper() if c["upper"] else b.hex()
        extra = ["-x", str(c["port"])] if c["port"] != 8444 or i % 2 else []
        if c["unique"]:
            extra.append("-Z")
        if c["fixed"]:
            extra += ["-i", hx(c["fixed"])]
        r = P.PlotRun(chk, t["chia_plot_k34" if c["wide"] else "chia_plot"], k=c["k"], threads=3, u=16, n=c["n"], tag="k%d" % i, dirs=c["dirs"], rand=chk.seed * 100000 + i, extra=extra,
                      farmer=hx(c["farmer"]), pool=hx(c["pool"]) if c["pool"] else None, contract=P.bech32m(c["hrp"], c["puzzle"]) if c["puzzle"] else None)
        log = os.path.join(r.dir, "rand.bin")
        r.env["VERIF_RANDLOG"] = log
        if c["env"]:
            del r.env["VERIF_RAND"]
        t0 = time.time()
        r.run()
        try:
            if not M.judge_run(chk, r):
                return
            stream = open(log, "rb").read() if os.path.exists(log) else b""
            ids, sks = [], []
            for p in r.plots():
                bad, h = keys.judge(p, c["k"], c["farmer"], c["pool"], c["puzzle"], c["port"], c["unique"], c["fixed"], t0, time.time(), stream)
                for k, m in bad:
                    chk.violation(k, "%s (port %d, unique %s, contract %s)" % (m, c["port"], c["unique"], bool(c["puzzle"])), dict(r.repro(), header={x: str(h[x]) for x in h}))
                ids.append(h["id"])
                sks.append(h["memo"][-32:])
                chk.case(h["id"].hex(), {"name": os.path.basename(p), "memo": h["memo"].hex(), "config": r.desc} if i < 3 else None)
                chk.observe("contract_plots" if c["puzzle"] else "pool_key_plots")
                if c["unique"] or c["port"] == 11337:
                    chk.observe("unique_plots")
            if len(set(ids)) != len(ids) or len(set(sks)) != len(sks):
                chk.violation("id:repeated", "plots of one run share an id or a master key: %s" % [x.hex() for x in ids], r.repro())
            if not c["fixed"]:
                with chk.lock:
                    for x in ids:
                        if x in seen:
                            chk._dup = (x, seen[x], i)
                        seen[x] = i
        finally:
            r.clean()
    P.parallel(one, list(enumerate(work)))
    if hasattr(chk, "_dup"):
        chk.violation("id:repeated", "runs with different keys or randomness gave the same id: %s" % (chk._dup,), None)
