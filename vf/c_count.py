"""C09, C10 (entropy), C11 (runs), C12 (alphabet size)"""
import json, math, os, re
from fractions import Fraction
from . import gen
from .core import *
from .c_lyndon import result_fields, int_or, small_ints
from .c_suffix import TR
from .gen import lcp_of


def limbs(x):
    """Fraction -> four limbs of 2^-30 fixed point (floor)"""
    v = math.floor(x * 2**30)
    return [v >> 30, (v >> 20) & 1023, (v >> 10) & 1023, v & 1023]


def log_table(n):
    from decimal import Decimal, getcontext
    out = []
    for v in range(1, n + 1):
        if v & (v - 1) == 0:
            out.append([v.bit_length() - 1, 0, 0, 0])
        else:
            out.append(limbs(Fraction(math.log2(v))))
    return out


def groups(t, k):
    """blocks of equal contexts of the (terminated) text in suffix-array order"""
    n = len(t)
    sa, rk = gen.suffix_array(t)
    lcp = lcp_of(t, sa)
    ev, cur = [], None
    for r in range(n):
        if r == 0 or lcp[r] < k or (n - sa[r] + 1 < k):
            cur = [1, 1]
            ev.append(cur)
        else:
            cur[0] += 1
            if lcp[r] > k:
                cur[-1] += 1
            else:
                cur.append(1)
    return sa, rk, ev


def parse_float(s):
    if s is None or not re.fullmatch(r"-?\d+(\.\d+)?(e-?\d+)?", s):
        return None
    return Fraction(s)


def entropy_runs(ctx, prog, jobs, kind):
    """jobs: (text without terminator, order)"""
    cases = []
    for i, (t, k) in enumerate(jobs):
        src = ctx.write(t) if i % 3 else None
        a = ["-o", k] if i % 2 else ["--order", k]
        if k == 0 and i % 4 == 0 and kind == "sa":
            a = []
        if src:
            a = (a + ["-i", src]) if i % 4 else (["-p", len(t) + 1, "-i", src] + a)
        cases.append({"prog": prog, "args": a, "stdin": None if src else t, "timeout": 120})
    out = []
    for (t, k), c, r in zip(jobs, cases, ctx.run(cases)):
        f = result_fields(r["out"])
        e = parse_float(f.get("entropy")) if f else None
        refused = r["rc"] != 0 and f is None
        if not isinstance(r["rc"], int) or (not refused and (r["rc"] != 0 or e is None)):
            ctx.violation("%s order %s on %s: status %s, output %s" % (prog, k, show(t, 150), r["rc"], show(r["out"])),
                          kind="exec", case=c, stderr=r["err"][:400])
            continue
        out.append((t, k, e, refused, int_or(f.get("length")) if f else -1))
    return out


def judge(ctx, prog, jobs, kind, vec):
    by = {}
    for i, v in enumerate(vec):
        f = (lambda c: c + 96 if c else 0, lambda c: (0, 1, 255, 128)[c])[i % 2]
        t = bytes(f(c) for c in v["t"][:-1])
        by[t, v["k"]] = v["c"]
        jobs.append((t, v["k"]))
    runs = []
    need = 2
    for t, k, e, refused, length in entropy_runs(ctx, prog, jobs, kind):
        n = len(t) + 1
        c = by.get((t, k))
        unfit = (k < 1 or k > 7 or k > n) if kind == "kmer" else k > 0 and 0 in t
        if c is not None and not unfit:
            want = sum(x * math.log2(v + 1) for v, x in enumerate(c)) / n
            ctx.expect_vector(not refused and abs(float(e) - want) < 1e-11, "%s order %d on %s reported %s, the specification %.12f" % (
                prog, k, show(t), e and float(e), want), text=t, order=k, coefficients=c)
        r = {"k": kind, "t": list(t) + [0], "order": k, "refused": refused, "len": length, "ev": [],
             "e": limbs(e * n) if e is not None else [0, 0, 0, 0],
             "_what": "%s order %d on %s reported %s, length %d" % (prog, k, show(t, 120), "nothing" if refused else float(e), length)}
        if abs(r["e"][0]) > 2**30:
            r["e"] = [2**29, 0, 0, 0]
        if not unfit and not refused:
            r["sa"], r["rk"], r["ev"] = groups(t + b"\0", k)
        need = max(need, n)
        runs.append(r)
    logs = os.path.join(ctx.work, "logs.json")
    json.dump(log_table(need), open(logs, "w"))
    os.environ["LOGS"] = logs
    ctx.validate("TR_Entropy", runs, kind="entropy", **TR("En"))


def mc_entropy(ctx):
    vec = []
    for sig, n, k in ctx.pick([(2, 7, 8), (3, 4, 5)], [(2, 10, 11), (3, 6, 7)]):
        vec += ctx.model_check("MC_Entropy", {"SIGMA": sig, "MAXN": n, "MAXK": k}, want_vectors=True,
                               inv=["KmerRight", "BlocksRight", "Balanced", "Export"], timeout=1500)
    return vec


def entropy_texts(ctx):
    rng = ctx.rng
    T = gen.mix(rng, ctx.pick(110, 500), ctx.pick(90, 400), ctx.pick(10, 50), maxbig=4097)
    T += [gen.fib(13), gen.debruijn(8), b"a" * 256, b"a" * 257, b"ab" * 128, bytes(range(1, 256)), bytes(range(1, 256)) * 3]
    return gen.dedup(T)


def c09(ctx):
    vec = mc_entropy(ctx)
    rng = ctx.rng
    T = entropy_texts(ctx)
    jobs = [(b"", 0), (b"", 1), (b"", 2)]
    for t in T:
        n = len(t)
        jobs.append((t, 0))
        for k in {1, 2, rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12]), rng.choice([n - 1, n, n + 1, n + 2, n // 2, 20, 255, 256, 257])}:
            if k >= 0 and (k <= 20 or rng.random() < 0.4):
                jobs.append((t, k))
    for _ in range(ctx.pick(60, 250)):                          # zero bytes: refused, except for order 0
        t = bytearray(rng.choice([t for t in T if len(t) < 600]))
        t[rng.choice([0, len(t) - 1, rng.randrange(len(t))])] = 0
        jobs += [(bytes(t), 0), (bytes(t), rng.choice([1, 2, 3, len(t)]))]
    big = bytes(rng.choice(b"abcd") for _ in range(ctx.pick(20000, 66000)))
    jobs += [(big, 0), (big, 3), (big, 6), (gen.fib(20), 2), (b"a" * 66000, 0), (b"a" * 66000, 1), (b"a" * 66000, 2), (b"ab" * 10000, 1), (b"a" * 66000 + b"b" * 66000, 1)]
    # orders beyond any buffer: contexts that agree on hundreds of characters, but not on all
    for m in ctx.pick([255, 600], [127, 128, 255, 256, 511, 512, 600, 1023, 1024, 2000]):
        w = bytes(rng.choice(b"acgt") for _ in range(m))
        t = b"x" + w + b"1y" + w + b"2z" + w + b"1x" + w + b"3y" + w + b"2"
        for k in {1, 2, 50, 127, 255, 256, 257, 300, 511, 512, 513, m - 1, m, m + 1, m + 2, 2 * m, len(t), len(t) + 1}:
            jobs.append((t, k))
        jobs += [((w + b"1") * 3 + w + b"2", k) for k in (m, m + 1, 2 * m, 2 * m + 1)] + [(b"a" * (2 * m) + b"b" + b"a" * m + b"c", m + k) for k in (-1, 0, 1)]
    # zero bytes far inside are refused, too
    for t in gen.far(rng, marks=(512, 4096, 8192, 65536), rare=b"\0"):
        jobs += [(t, 0), (t, rng.choice([1, 2, 3]))]
    judge(ctx, "entropy", jobs, "sa", vec)


def c10(ctx):
    vec = mc_entropy(ctx)
    rng = ctx.rng
    T = entropy_texts(ctx)
    jobs = [(b"", 1), (b"", 2), (b"", 7)]
    for t in T:
        for k in rng.sample(range(1, 8), 3) + ([0, 8, 9, 64, 255] if rng.random() < 0.1 else []):
            jobs.append((t, k))
    for t in [t for t in T if len(t) < 9]:
        jobs += [(t, k) for k in range(0, 10)]
    # bytes whose k-mers only differ in the highest or lowest byte
    for _ in range(ctx.pick(40, 200)):
        w = bytes(rng.choice([1, 127, 128, 254, 255]) for _ in range(rng.choice([6, 7, 8])))
        t = b"".join(bytes([rng.choice([1, 2, 128, 255])]) + w[1:] + bytes([rng.choice([3, 4, 129])]) for _ in range(rng.randrange(2, 30)))
        jobs += [(t, rng.randrange(1, 8)), (t, 7)]
    big = bytes(rng.choice(b"abcd") for _ in range(ctx.pick(20000, 66000)))
    jobs += [(big, 1), (big, 3), (big, 7), (gen.fib(20), 2), (b"a" * 66000, 1), (b"a" * 66000, 7), (b"ab" * 66000, 3)]
    for t in gen.far(rng, marks=(512, 4096, 32768)) + gen.far(rng, marks=(65536,), filler=(b"acgt",)):
        jobs.append((t, rng.randrange(1, 8)))
    judge(ctx, "entropy_kmer", jobs, "kmer", vec)


def mc_runs(ctx):
    vec = []
    for sig, n in ctx.pick([(2, 6)], [(2, 8), (3, 6)]):
        vec += ctx.model_check("MC_Runs", {"SIGMA": sig, "MAXN": n}, want_vectors=True, spec="Spec", props=["Terminates"],
                               inv=["CountsRight", "Complete", "SameDelivered", "Fails", "Bound", "Export"])
    return vec


def c11(ctx):
    vec = mc_runs(ctx)
    reqs, exp = [], []
    for i, v in enumerate(vec):
        f = (lambda c: c + 96, lambda c: (0, 0, 255, 128)[c])[i % 2]
        reqs.append(("runs", [f(c) if c > 0 else c for c in v["s"]], v["piece"]))
        exp.append(v)
    for r, (k, o), v in zip(reqs, ctx.lib(reqs), exp):
        ok = (k == "ok" and o == v["runs"]) if v["st"] == "eof" else k == "panic"
        ctx.expect_vector(ok, "number_of_runs on a stream %s in pieces of %d: %s %s, the specification %s %s" % (
            r[1], r[2], k, o, v["st"], v["runs"]), request=r, got=[k, o])
    rng = ctx.rng
    T = gen.mix(rng, ctx.pick(150, 700), ctx.pick(200, 800), ctx.pick(20, 100), alphas=gen.ALPHAS + gen.FULL, maxbig=8193)
    T += [b"", b"\0", b"\xff", b"\n", b"\0" * 300, b"a" * 70000, b"ab" * 35000, bytes(rng.randrange(256) for _ in range(70000)),
          bytes(range(256)), b"\0\xff" * 20, b"\xff\0" * 20]
    T += gen.far(rng) + gen.far(rng, filler=(b"\0", b"\0\xff"), rare=b"\1\xff") + [b"a" * 600000 + b"b" + b"a" * 350000]
    T = gen.dedup(T)
    runs = []
    # streams
    S = []
    for t in [t for t in T if len(t) < 1200][:ctx.pick(200, 900)]:
        s = list(t)
        for _ in range(rng.randrange(0, 6)):
            s.insert(rng.randrange(len(s) + 1), -1)
        if rng.random() < 0.2:
            s.insert(rng.randrange(len(s) + 1), rng.choice([-2, -4, -rng.randrange(5, 17)]))
        S.append((s, rng.choice([1, 2, 3, 7, 64, 4096])))
    S += [([-1], 1), ([-1, -1, 7], 1), ([-2], 1), ([5, -2], 1), ([5, -1, 5, -1, 5], 1)]
    for t in gen.far(rng, marks=(512, 1024, 4096, 8192, 65536)) + [b"a" * 70000, b"ab" * 33000]:
        s = list(t)
        if rng.random() < 0.5:
            s.insert(rng.randrange(len(s) + 1), -1)
        S.append((s, rng.choice([1, 3, 64, 4096, 8192, 100000])))
    for (s, p), (k, o) in zip(S, ctx.lib([("runs", s, p) for s, p in S])):
        runs.append({"k": "stream", "s": s, "failed": k != "ok", "n": o if k == "ok" else -1,
                     "_what": "number_of_runs on the stream %s in pieces of %d: %s" % (show(s, 120), p, show(o, 80))})
    cases, meta = [], []
    for i, t in enumerate(T):
        src = ctx.write(t)
        cases.append({"prog": "count_runs", "args": [["-i", src], [], ["--infilename", src], []][i % 4],
                      "stdin": [None, t, None, "@" + src][i % 4]})
        meta.append(("runs", t))
    for t, c, r in zip(T, cases, ctx.run(cases)):
        m = re.fullmatch(rb"(\d+)\n", r["out"])
        if r["rc"] != 0 or not m:
            ctx.violation("count_runs on %s: status %s, output %s" % (show(t, 150), r["rc"], show(r["out"])), kind="exec", case=c)
            continue
        runs.append({"k": "runs", "t": list(t), "n": int(m.group(1)), "_what": "count_runs on %s reported %s" % (show(t, 120), int(m.group(1)))})
    # the run counter of the transform, next to the transform tool itself
    cb, cr, meta = [], [], []
    for i, t in enumerate([t for t in T if t and len(t) <= 9000] + [b"a" * 20000, b"ab" * 33000, bytes(rng.randrange(1, 256) for _ in range(66000)), gen.fib(22)]):
        opts = ([], ["-n"], ["-u"], ["-u", "-n"], ["-n", "-u"])[i % 5]
        if i % 3 == 0:
            opts = opts + ["-p", rng.choice([1, 2, 99, 100, 101, len(t), len(t) + 1, max(1, len(t) // 2)])]
        src = ctx.write(t)
        a = opts + (["-i", src] if i % 2 else [])
        cb.append({"prog": "bwt", "args": a, "stdin": None if i % 2 else t, "timeout": 60})
        cr.append({"prog": "count_r", "args": a[::-1] if a == opts and len(opts) == 2 and "-p" not in opts else a, "stdin": None if i % 2 else t, "timeout": 60})
        meta.append(t)
    for t, c, b, r in zip(meta, cr, ctx.run(cb), ctx.run(cr)):
        f = result_fields(r["out"])
        if b["rc"] == 0 and b["out"]:
            if r["rc"] != 0 or f is None:
                ctx.violation("count_r %s on %s: status %s, output %s" % (c["args"], show(t, 150), r["rc"], show(r["out"])), kind="exec", case=c)
                continue
            runs.append({"k": "r", "b": list(b["out"]), "refused": False, "n": int_or(f.get("bwt_runs")), "len": int_or(f.get("length")),
                         "_what": "count_r %s on %s reported %s" % (c["args"], show(t, 120), f)})
        else:
            runs.append({"k": "r", "b": [], "refused": True, "n": -1 if r["rc"] != 0 and f is None else 0, "len": -1,
                         "_what": "bwt %s refuses %s, count_r: status %s, %s" % (c["args"], show(t, 120), r["rc"], f)})
    ctx.validate("TR_Runs", runs, kind="runs", **TR("Ru"))


def c12(ctx):
    vec = mc_runs(ctx)
    rng = ctx.rng
    T, by = [], {}
    for i, v in enumerate(vec):
        if v["st"] == "eof" and -1 not in v["s"]:
            f = (lambda c: c + 96, lambda c: (0, 0, 255, 128)[c])[i % 2]
            t = bytes(f(c) for c in v["s"])
            by[t] = v["sigma"]
            T.append(t)
    T += gen.mix(rng, ctx.pick(100, 500), ctx.pick(200, 800), ctx.pick(20, 100), alphas=gen.ALPHAS + gen.FULL, maxbig=8193)
    T += [b"", b"\0", b"\xff", bytes(range(256)), bytes(range(255, -1, -1)), bytes(range(256)) * 9, bytes(range(1, 256)), bytes(range(255)),
          b"a" * 70000, bytes(rng.randrange(256) for _ in range(70000)), b"a" * 66000 + bytes(range(256))]
    for n in (1, 2, 16, 127, 128, 129, 253, 254, 255, 256):    # every alphabet size near the boundaries, in any order
        for _ in range(ctx.pick(6, 30)):
            a = rng.sample(range(256), n)
            T.append(bytes(a + [rng.choice(a) for _ in range(rng.choice([0, 0, 5, 200]))]))
    for n in range(256):
        T.append(bytes(x for x in range(256) if x != n))       # every byte but one
        T.append(bytes([n]))
        T.append(bytes([n, 255 - n, n]))
    T += gen.far(rng) + gen.far(rng, filler=(b"\0", bytes(range(100))), rare=b"\xff\xfe")
    T += [t + bytes(range(256))[::7] for t in gen.far(rng, marks=(4096, 65536), filler=(bytes(range(256)),))]
    T += [b"a" * p + b"b" + b"a" * (n - p) for n in (20000, 70000, 150000) for p in (n // 4, n // 3, n // 2, n * 2 // 3, n * 3 // 4)] + [b"a" * 600000 + b"b" + b"a" * 350000]
    T = gen.dedup(T)
    cases = []
    for i, t in enumerate(T):
        src = ctx.write(t)
        cases.append({"prog": "count_sigma", "args": [["-i", src], [], ["--infilename", src, "-p", len(t) + 1], ["-p", 0]][i % 4],
                      "stdin": None if i % 2 == 0 else t})
    runs = []
    for t, c, r in zip(T, cases, ctx.run(cases)):
        f = result_fields(r["out"])
        if r["rc"] != 0 or f is None:
            ctx.violation("count_sigma on %s: status %s, output %s" % (show(t, 150), r["rc"], show(r["out"])), kind="exec", case=c, stderr=r["err"][:300])
            continue
        s = int_or(f.get("sigma"))
        if t in by:
            ctx.expect_vector(s == by[t], "count_sigma on %s reported %s, the specification %s" % (show(t), s, by[t]), text=t)
        runs.append({"k": "sigma", "t": list(t), "n": s, "len": int_or(f.get("length")), "_what": "count_sigma on %s reported %s" % (show(t, 120), f)})
    ctx.validate("TR_Runs", runs, kind="alphabet size", **TR("Ru"))


REGISTRY = {"C09": c09, "C10": c10, "C11": c11, "C12": c12}
