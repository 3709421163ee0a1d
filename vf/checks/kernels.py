"""shared: phase 1 kernels against the definition at every k, both builds"""
import os
from .. import build as B, harness as H


def targets(k34=True, opt=True):
    src = [B.R("src/settings.cpp"), B.R("lib/chacha8.c")] + B.B3
    return [B.harness("h_kernel.cpp", extra_src=src, san="o2", name="h_kernel").opt()] + \
        ([B.harness("h_kernel.cpp", extra_src=src, san="o2", k34=True, name="h_kernel_k34").opt()] if k34 else [])


def run(chk, t, what):
    for name in ("h_kernel", "h_kernel_k34"):
        if name in t:
            H.run(chk, t[name], ["--what", ",".join(what), "--scale", chk.n(1, 20)], key=name)
