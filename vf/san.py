"""reads sanitizer reports out of a process's output"""
import re

_FRAME = re.compile(r"^\s*#(\d+)\s+(?:0x[0-9a-f]+ in )?(.+?)\s+(/\S+?):(\d+)(?::\d+)?(?:\s|$)")


def _frames(lines):
    out = []
    for l in lines:
        m = _FRAME.match(l)
        if m:
            fn = re.sub(r"<.*", "", m.group(2))
            out.append((re.sub(r"\(.*", "", fn).strip() or m.group(2), m.group(3)))
    return out


def _top(frames):
    for fn, f in frames:
        if "/repo/" in f and "/verif/" not in f:
            return "%s@%s" % (fn.split("::")[-1], f.split("/repo/")[-1])
    for fn, f in frames:
        if "/verif/" in f:
            return "%s@%s" % (fn.split("::")[-1], f.split("/verif/")[-1])
    return frames[0][0] if frames else "?"


def tsan(text):
    """[(kind, key, excerpt)] with one key per pair of places"""
    out = []
    for part in text.split("WARNING: ThreadSanitizer: ")[1:]:
        part = part.split("\n==================")[0]
        kind = part.split("(pid")[0].strip()
        stacks, cur = [], None
        for l in part.splitlines()[1:]:
            if re.match(r"^  \S.*:$", l):
                cur = [] if re.search(r"(Write|Read|write|read) of size|Mutex|Cycle", l) else None
                if cur is not None:
                    stacks.append(cur)
            elif cur is not None:
                cur.append(l)
        tops = sorted(set(_top(_frames(s)) for s in stacks[:2]))
        out.append((kind, kind.replace(" ", "-") + ":" + "|".join(tops), part[:3500]))
    return out


def asan(text):
    out = []
    m = re.search(r"ERROR: AddressSanitizer:? (\S+)", text)
    if m:
        rest = text[m.start():]
        fr = []
        for l in rest.splitlines()[1:]:
            if re.match(r"^\s*#\d+", l):
                fr.append(l)
            elif fr:
                break
        out.append((m.group(1), "asan:%s:%s" % (m.group(1), _top(_frames(fr))), rest[:3500]))
    for m in re.finditer(r"^(/\S+?):(\d+):\d+: runtime error: (.*)$", text, re.M):
        f = m.group(1)
        f = f.split("/repo/")[-1] if "/repo/" in f else f
        what = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(3))[:60].strip()
        out.append(("ub", "ub:%s:%s" % (f, what), text[m.start():m.start() + 1500]))
    return out


def report(chk, path, rc, label, rep, races=True):
    """memory errors, undefined behaviour, races and fatal signals of one finished process; nothing else"""
    text = open(path, errors="replace").read(8 << 20) if path else ""
    found = asan(text) + (tsan(text) if races else [])
    m = re.search(r"^(\S+:\d+): .*Assertion '(.*)' failed", text, re.M)
    if m and "/c++/" in m.group(1):
        found.append(("library", "library:" + re.sub(r".*/", "", m.group(1)) + ":" + m.group(2)[:40].replace(" ", ""), text[m.start():m.start() + 1500]))
    for kind, k, t in found:
        chk.violation(k, "%s: %s" % (label, k), dict(rep, report=t))
    if not found and rc in (-11, -7, -8, -4, 139, 135, 136, 132):
        chk.violation("signal:%d" % (rc if rc < 0 else 128 - rc), "%s: killed by signal %d" % (label, abs(rc) % 128), dict(rep, output=text[-2000:]))
    return found
