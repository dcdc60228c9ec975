#!/usr/bin/env python3
"""Which input lengths a quick check gives to which tool or function (development aid, no check).
usage: lengths.py C01 [C02 ...]"""
import os, sys, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, checks
EDGES = [0, 1, 2, 3, 4, 16, 17, 64, 65, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131072, 262144, 2**20, 2**21]
S = collections.defaultdict(collections.Counter)
orun, olib = core.Ctx.run, core.Ctx.lib


def run(self, cases, threads=8):
    for c in cases:
        si, n = c.get("stdin"), None
        a = [str(x) for x in c.get("args", [])]
        if isinstance(si, (bytes, bytearray, list)):
            n = len(si)
        elif isinstance(si, str) and si[0] == "@" and os.path.isfile(si[1:]):
            n = os.path.getsize(si[1:])
        for f in a:
            f = f[2:] if f.startswith("-i") and len(f) > 2 else f.split("=", 1)[-1]
            f = os.path.join((c.get("env") or {}).get("@cwd", "."), f)
            if n is None and os.path.isfile(f):
                n = os.path.getsize(f)
        S["tool " + os.path.basename(c["prog"])][n] += 1
    return orun(self, cases, threads)


def lib(self, reqs, **kw):
    for r in reqs:
        S["lib  " + r[0]][next((len(a) for a in r[1:] if isinstance(a, (list, tuple, bytes, bytearray))), None)] += 1
    return olib(self, reqs, **kw)


core.Ctx.run, core.Ctx.lib = run, lib
for pid in sys.argv[1:]:
    S.clear()
    rc = core.main(pid, "quick", checks.REGISTRY)
    print("=====", pid, rc)
    for k in sorted(S):
        c = S[k]
        ls = [x for x in c if x is not None]
        out, prev = [], -1
        for e in EDGES:
            mid = sum(c[x] for x in ls if prev < x < e)
            if mid:
                out.append("%d..%d:%d" % (prev + 1, e - 1, mid))
            if c[e]:
                out.append("[%d]:%d" % (e, c[e]))
            prev = e
        mid = sum(c[x] for x in ls if x > prev)
        if mid:
            out.append(">%d:%d" % (prev, mid))
        print(k, "total", sum(c.values()), "distinct lengths", len(ls), "max", max(ls, default=None), "|", " ".join(out))
