"""C26: the lex-parse search"""
import os
import re
from . import gen
from .core import *
from .c_suffix import TR


def number(t):
    return sum((c - 97) << i for i, c in enumerate(t[:32]))


def cert(n):
    t = bytes(97 + (n >> i & 1) for i in range(32))
    return [n, *gen.suffix_array(t + b"\0"), *gen.suffix_array(t.translate(bytes.maketrans(b"ab", b"ba")) + b"\0")]


def c26(ctx):
    ctx.model_check("MC_LexEnum", {"LENGTH": ctx.pick(6, 8)}, inv=["Growing", "Record", "Complete", "Symmetric", "Finished"])
    secs = ctx.pick(15, 120)
    debug = os.path.join(ctx.bindir, "enumerate_lexparse")
    ctx.use_profile("release")      # the optimized build gets further
    fast = os.path.join(ctx.bindir, "enumerate_lexparse")
    ctx.use_profile("debug")
    for build, r in zip(("debug", "release"), ctx.run([{"prog": p, "args": [], "timeout": secs} for p in (debug, fast)])):
        judge(ctx, build, r)


def judge(ctx, build, r):
    if r["rc"] not in ("timeout", "flood"):
        ctx.violation("enumerate_lexparse (%s build) ended early with status %s: %s" % (build, r["rc"], r["err"][:300]), kind="exec")
    lines = []
    runs = []
    out = r["out"][:r["out"].rfind(b"\n") + 1]
    for ln in out.split(b"\n")[:-1]:
        m = re.fullmatch(rb'(\d+): "([^"]*)" <-> "([^"]*)"', ln)
        if not m:
            ctx.violation("enumerate_lexparse printed %r" % ln, kind="exec", line=ln)
            continue
        d, x, y = int(m.group(1)), *[m.group(k).replace(b"\\0", b"\0") for k in (2, 3)]
        lines.append((min(number(x), number(y)) if len(x) == len(y) == 33 else 0, d))
        runs.append({"k": "line", "d": min(d, 10**6), "x": list(x), "y": list(y), "_what": "line %s" % ln.decode("latin-1")})
    ctx.log("%s build: %d lines, last at string number %s" % (build, len(lines), lines[-1] if lines else None))
    runs.append({"k": "stream", "ev": [[min(n, 2**31 - 1), min(d, 10**6)] for n, d in lines], "_what": "printed lines"})
    # a string that was passed over has a smaller difference than the record of that moment
    marks, best = sorted(set(lines)), 0
    top = marks[-1][0] if marks else -1
    cap = ctx.pick(12000, 80000)
    if top + 1 <= cap:
        todo = range(top + 1)
    else:
        todo = sorted(set(range(cap // 4)) | {n for n, _ in marks[-2000:]} | set(range(top + 1 - cap // 8, top + 1))
                      | {ctx.rng.randrange(top + 1) for _ in range(cap // 2)})
    by, i, named = {}, 0, dict(marks)
    for n in todo:
        while marks[i][0] < n:
            best = max(best, marks[i][1])
            i += 1
        if n not in named:
            by.setdefault(best - 1, []).append(n)
    for b, ns in by.items():
        for i in range(0, len(ns), 100):
            runs.append({"k": "range", "bound": min(b, 10**6), "ev": [cert(n) for n in ns[i:i + 100]],
                         "_what": "strings %d..%d passed over at a record of %d" % (ns[i], ns[i:i + 100][-1], b + 1)})
    ctx.validate("TR_LexEnum", runs, kind="enumerate_lexparse (%s build)" % build, **TR("Le"))
    ctx.notes.append("the tool enumerates 2^32 strings; the first %d are examined by the %s build within the time given" % (top + 1, build))


REGISTRY = {"C26": c26}
