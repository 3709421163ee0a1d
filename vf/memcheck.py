"""valgrind memcheck over the real plotter: invalid accesses, and decisions or addresses made from undefined values"""
import re

KINDS = ("Invalid read", "Invalid write", "Conditional jump or move depends on uninitialised", "Use of uninitialised value", "Invalid free", "Mismatched free",
         "Source and destination overlap", "Jump to the invalid address", "Argument 'size' of function")
CMD = ["valgrind", "-q", "--num-callers=10", "--error-limit=no", "--leak-check=no", "--show-mismatched-frees=yes", "--fair-sched=yes"]


def parse(text):
    """undefined bytes inside written temp records (Syscall param write) are padding and are not counted"""
    out = []
    blocks = re.split(r"^==\d+== *\n", text, flags=re.M)
    for b in blocks:
        body = re.sub(r"^==\d+== ?", "", b, flags=re.M)
        for k in KINDS:
            m = re.search(r"^" + re.escape(k) + r".*$", body, re.M)
            if m:
                fns = [re.sub(r"[<(].*", "", x).split("::")[-1].strip() for x in re.findall(r"(?:at|by) 0x[0-9A-F]+: (.*)", body)]
                fns = [f for f in fns if f and not f.startswith("std")] or ["?"]
                out.append((k, "memcheck:%s:%s" % (k.replace(" ", "-")[:24], fns[0]), body[:3000]))
                break
    return out
