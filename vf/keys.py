"""Independent recomputation of plot id, memo and name.  The group is the stand-in's (standins/bls.hpp); what is judged is how keys are combined, not the curve."""
import datetime, hashlib, os, re, struct, time

H = lambda b: hashlib.sha256(b).digest()
MOD = 1 << 382


def keygen(seed):
    return H(b"keygen" + seed)


def child(sk, i):
    return H(b"child" + sk + struct.pack(">I", i & 0xffffffff))


def pub(sk):
    return int.from_bytes((H(sk + b"\0") + H(sk + b"\1"))[:48], "big") % MOD


def ser(p):
    return (p % MOD | 1 << 383).to_bytes(48, "big")


def plot_id(master_sk, farmer, pool=None, puzzle=None, port=8444, unique=False):
    """farmer, pool: 48 bytes, puzzle: 32 bytes"""
    f = int.from_bytes(farmer, "big") % MOD
    sk = master_sk
    for i in (12381, port, 3, 0):
        sk = child(sk, i)
    local = pub(sk)
    key = local + f
    if puzzle is not None:
        key += pub(keygen(H(ser(local + f) + ser(local) + ser(f))))
    data = (puzzle if puzzle is not None else pool) + ser(key)
    if unique or port == 11337:
        data = H(data) + struct.pack("<I", port & 0xffffffff)
    return H(data)


def header(path):
    b = open(path, "rb").read(4096)
    magic, b = b[:19], b[19:]
    pid, k, b = b[:32], b[32], b[33:]
    n = struct.unpack(">H", b[:2])[0]
    fmt, b = b[2:2 + n], b[2 + n:]
    n = struct.unpack(">H", b[:2])[0]
    return dict(magic=magic, id=pid, k=k, fmt=fmt, memo=b[2:2 + n], memo_size=n)


def judge(path, k, farmer, pool=None, puzzle=None, port=8444, unique=False, fixed=None, t0=0, t1=None, stream=None):
    """[(key, message)] for one published plot; stream: all bytes the random generator handed out"""
    bad = []
    h = header(path)
    if h["magic"] != b"Proof of Space Plot":
        bad.append(("header:magic", "magic %r" % h["magic"]))
    if h["k"] != k:
        bad.append(("header:k", "header k %d, asked for %d" % (h["k"], k)))
    first = puzzle if puzzle is not None else pool
    memo = h["memo"]
    if len(memo) != len(first) + 48 + 32 or h["memo_size"] != len(memo):
        bad.append(("memo:size", "memo of %d bytes" % len(memo)))
        return bad, h
    if memo[:len(first)] != first:
        bad.append(("memo:pool", "memo starts with %s, expected %s" % (memo[:len(first)].hex(), first.hex())))
    if memo[len(first):len(first) + 48] != farmer:
        bad.append(("memo:farmer", "memo holds farmer key %s, expected %s" % (memo[len(first):len(first) + 48].hex(), farmer.hex())))
    sk = memo[-32:]
    want = fixed if fixed is not None else plot_id(sk, farmer, pool, puzzle, port, unique)
    if h["id"] != want:
        bad.append(("id", "plot id %s, expected %s for the memo's key" % (h["id"].hex(), want.hex())))
    if stream is not None:
        ok = any(keygen(stream[o:o + n]) == sk for n in (32, 64, 48, 128) for o in range(0, max(0, len(stream) - n + 1)))
        if not ok:
            bad.append(("memo:master", "the master key in the memo does not come from the random generator"))
    m = re.fullmatch(r"plot(-mmx)?-k(\d+)-(\d{4}-\d\d-\d\d-\d\d-\d\d)-([0-9a-f]{64})\.plot", os.path.basename(path))
    if not m:
        bad.append(("name:form", "file name %s" % os.path.basename(path)))
    else:
        if bool(m.group(1)) != (port == 11337):
            bad.append(("name:network", "file name %s for port %d" % (os.path.basename(path), port)))
        if int(m.group(2)) != k:
            bad.append(("name:k", "file name %s for k %d" % (os.path.basename(path), k)))
        if m.group(4) != h["id"].hex():
            bad.append(("name:id", "file name %s, id %s" % (os.path.basename(path), h["id"].hex())))
        at = time.mktime(time.strptime(m.group(3), "%Y-%m-%d-%H-%M"))
        if not (t0 - 61 <= at <= (t1 or time.time()) + 1):
            bad.append(("name:date", "file name %s, made at %s" % (os.path.basename(path), time.ctime(t0))))
    return bad, h
