"""C01, C19, C20 (Lyndon words and factorizations)"""
import re
from . import gen
from .core import *


def result_fields(out):
    """fields of the RESULT line (a dict), or None"""
    for ln in out.decode("latin-1").split("\n"):
        if ln.startswith("RESULT"):
            return dict(x.split("=", 1) for x in ln.split() if "=" in x)
    return None


def int_or(s, d=-1):
    try:
        v = int(s)
        return v if -2**31 < v < 2**31 else d
    except (TypeError, ValueError):
        return d


def small_ints(x):
    """output of the code as TLC integers (too large or malformed values become -7)"""
    return [v if isinstance(v, int) and not isinstance(v, bool) and -2**31 < v < 2**31 else -7 for v in x]


LYTR = dict(consts={"SInit": ("<-", "LySInit"), "SStep": ("<-", "LySStep"), "SFinal": ("<-", "LySFinal")})


def c01(ctx):
    # 1. the specification: Duval's machine and the suffix-rank machine compute the unique factorization
    vec = []
    for sig, lo, hi, un in ctx.pick([(2, 1, 8, 7), (3, 1, 6, 6)], [(2, 1, 12, 9), (3, 1, 8, 7), (4, 1, 6, 6)]):
        vec += ctx.model_check("MC_Lyndon", {"SIGMA": sig, "MINN": lo, "MAXN": hi, "UNIQN": un}, want_vectors=True,
                               inv=["Progress", "Correct", "Agree", "ByRank", "Unique", "Export"])
    # 2. replay every explored text in the code
    maps = [("u8", lambda c: c + 96), ("u8", lambda c: (0, 127, 128, 255, 254)[c]), ("i64", lambda c: (c - 2) * 10**12)]
    reqs, exp = [], []
    for v in vec:
        for ty, f in maps:
            t = [f(c) for c in v["t"]]
            if sorted(set(v["t"])) and [f(c) for c in sorted(set(v["t"]))] == sorted({f(c) for c in v["t"]}):
                reqs.append(("duval@" + ty, t))
                exp.append([e - 1 for e in v["f"]])
    sas = ctx.lib([("divsufsort", [c + 96 for c in v["t"]]) for v in vec])
    isa = ctx.lib([("inv", s[1]) for s in sas])
    for v, s in zip(vec, isa):
        reqs.append(("isa_lyndon", s[1]))
        exp.append([e - 1 for e in v["f"]])
    for r, (k, o), e in zip(reqs, ctx.lib(reqs), exp):
        ctx.expect_vector(k == "ok" and o == e, "%s%s gave %s, the specification %s" % (r[0], r[1], o, e),
                          request=r, got=o, expected=e)
    # 3. recorded factorizations of other texts
    rng = ctx.rng
    T = gen.mix(rng, ctx.pick(150, 600), ctx.pick(150, 800), ctx.pick(16, 100), alphas=gen.ALPHAS + gen.FULL, maxbig=8193)
    T += [b"a" * 300, b"ab" * 300, b"ba" * 300, b"\0" * 40, b"a\0", b"\0a\0", b"\0", b"b" * 260 + b"a" * 260,
          b"aab" * 257, bytes(range(255, -1, -1)), bytes(range(256)), b"\n>Factor 2 : 1 -> 1\nab\n", b"ab\n>Factor 1\nab\0"]
    T += [gen.fib(22)[:20000], bytes(rng.choice(b"ab") for _ in range(ctx.pick(20000, 70000))), b"a" * 66000, b"ba" * 33000]
    cert = {}
    for t in T:
        cert[t] = gen.suffix_array(t)
    runs = []
    reqs = []
    for i, t in enumerate(T):
        ty = ("u8", "u16", "u8", "u32", "i64", "i32")[i % 6]
        reqs.append(("duval@" + ty, gen.wide(ty, t)))
        reqs.append(("isa_lyndon", [x - 1 for x in cert[t][1][:-1]]))
    for r, o, t in zip(reqs, ctx.lib1(reqs), [t for t in T for _ in (0, 1)]):
        if o is not None:
            runs.append({"t": list(t), "sa": cert[t][0], "rk": cert[t][1], "ev": small_ints(o), "fn": r[0],
                         "_what": "%s(%s) = %s" % (r[0], show(t, 120), show(o, 120))})
    ctx.validate("TR_Lyndon", runs, kind="duval / isa_lyndon_factorization", **LYTR)
    # 4. the tool: count, length, file and debug log of one run
    T2 = [t for t in T if 0 < len(t) < 64][:ctx.pick(90, 400)] + [t for t in T if 64 <= len(t) <= 1100][:ctx.pick(150, 700)] + [b"b\0", b"ab\0", b"\0a\0", b"a\n\0"]
    T2 += [t for t in T if len(t) > 1100] + [b"b" * 66000, b"b" * 9000 + b"a" * 9000 + b"\0", b"ab" * 4096 + b"a" * 8192]
    cases, files = [], []
    for i, t in enumerate(T2):
        out = ctx.file(".fa")
        src = i % 3
        p = ctx.write(t)
        args = ["-o", out] + (["-i", p] if src else [])
        if src == 2:
            args += ["-p", str(len(t) + (i % 2) * 5)]
        cases.append({"prog": "lyndonfactorization", "args": args, "stdin": t if not src else None, "out": out,
                      "env": {"RUST_LOG": "debug"} if i % 4 != 3 and len(t) < 9000 else {}})
    runs = []
    for t, c, r in zip(T2, cases, ctx.run(cases)):
        f = result_fields(r["out"])
        # without the log the factorization is a hint; the count and the file are judged against it
        m = re.search(rb"Lyndon factorization : \[([0-9, ]*)\]", r["err"] if b"Lyndon factorization" in r["err"] else
                      b"Lyndon factorization : [%s]" % b",".join(b"%d" % (e - 1) for e in gen.duval(t)))
        if r["rc"] != 0 or f is None or m is None or r["file"] is None:
            ctx.violation("lyndonfactorization on %s: status %s, output %s" % (show(t), r["rc"], show(r["out"])),
                          kind="exec", case=c, stderr=r["err"][:400])
            continue
        sa, rk = cert[t] if t in cert else gen.suffix_array(t)
        runs.append({"t": list(t), "sa": sa, "rk": rk, "ev": small_ints([int(x) for x in m.group(1).split(b",") if x.strip()]),
                     "cnt": int_or(f.get("factors")), "file": list(r["file"]),
                     "_what": "lyndonfactorization on %s" % show(t, 120)})
    ctx.validate("TR_Lyndon", runs, kind="lyndonfactorization tool", **LYTR)


REGISTRY = {"C01": c01}
