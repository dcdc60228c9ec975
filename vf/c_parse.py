"""C05 (LZ77), C06 (lex-parse), C07 (minimal unique substrings), C08 (attractors)"""
import bisect, re
from . import gen
from .core import *
from .c_lyndon import result_fields, int_or, small_ints
from .c_suffix import TR
from .gen import lcp_of


def mc_parse(ctx):
    vec = []
    for sig, n in ctx.pick([(2, 7), (3, 5)], [(2, 10), (3, 7), (4, 6)]):
        vec += ctx.model_check("MC_Parse", {"SIGMA": sig, "MAXN": n}, want_vectors=True, timeout=1500,
                               inv=["LzDecodes", "LzFactorsRight", "LzCheckExact", "LzRankExact", "LexCheckExact", "LexAcyclic",
                                    "LexDecodes", "MusAgree", "RepAgree", "KasaiBoth", "Export"])
    # the sources differ between behaviours; everything exported does not
    seen = {}
    for v in vec:
        k = tuple(v["t"])
        if seen.setdefault(k, v) != v:
            raise ToolError("specification: the parse lengths depend on the sources")
    return list(seen.values())


def texts(ctx, small, medium, large, full=True, maxbig=1025):
    rng = ctx.rng
    T = gen.mix(rng, small, medium, large, alphas=gen.ALPHAS + (gen.FULL if full else []), maxbig=maxbig)
    T += [gen.fib(13), gen.thue(9), gen.perioddoubling(9), gen.debruijn(9), gen.debruijn(4, 4), b"a" * 300, b"ab" * 150,
          bytes(range(1, 256)), bytes(range(255, 0, -1)), b"abcab" * 60 + b"d" + b"abcab" * 60]
    if full:
        T += [b"\0" * 50, b"\0", bytes(range(256)) * 2, b"a\0" * 70]
    for _ in range(small // 4):                     # copies with edits, and self-overlapping copies
        w = bytearray(gen.rand(rng, rng.randrange(3, 40), rng.choice(gen.ALPHAS)))
        t = bytearray(w)
        for _ in range(rng.randrange(1, 5)):
            x = bytearray(w)
            x[rng.randrange(len(x))] = rng.choice(w)
            t += x[rng.randrange(len(x)):]
        T.append(bytes(t))
    return gen.dedup(T)


def long_repeats(ctx):
    """texts with repeats, factors and distances around 2^16"""
    u = bytes(ctx.rng.randrange(1, 256) for _ in range(65536))
    return [b"a" * 70000, u + u[:65000]] + ctx.pick([], [b"b" + b"a" * 65536 + b"b" + b"a" * 65537, u + b"\1" + u, u[:65535] * 2, u[:40000] * 3 + b"\7", gen.fib(23)])


def run_parse(ctx, prog, T):
    """runs the tool, returns (text, factors, fields) where it behaved"""
    cases = []
    for i, t in enumerate(T):
        out = ctx.file()
        src = ctx.write(t)
        args = [["-o", out], ["-o", out, "-i", src], ["--outfilename", out, "--infilename", src, "-p", len(t) + i % 3]][i % 3]
        cases.append({"prog": prog, "args": args, "stdin": t if i % 3 == 0 else None, "out": out, "timeout": 120})
    res = []
    for t, c, r in zip(T, cases, ctx.run(cases)):
        f = result_fields(r["out"])
        ok = r["rc"] == 0 and f is not None and r["file"] is not None and re.fullmatch(rb"(\(\d+,\d+\))*", r["file"])
        if not ok:
            ctx.violation("%s on %s: status %s, output %s, factors %s" % (prog, show(t, 150), r["rc"], show(r["out"]), show(r["file"])),
                          kind="exec", case=c, stderr=r["err"][:400])
            continue
        fac = [[int(a), int(b)] for a, b in re.findall(rb"\((\d+),(\d+)\)", r["file"])]
        res.append((t, fac, f))
    return res


def intervals(t, sa, rk, fac):
    """suffix-array interval of the first l + 1 characters at each factor's start"""
    n = len(t)
    out, i = [], 0
    for x, l in fac:
        lo = hi = 0
        if 0 <= l and i + l + 1 <= n:
            w = t[i:i + l + 1]
            r = rk[i] - 1
            lo = bisect.bisect_left(range(n), w, key=lambda k: t[sa[k] - 1:sa[k] - 1 + len(w)])
            hi = bisect.bisect_right(range(n), w, key=lambda k: t[sa[k] - 1:sa[k] - 1 + len(w)])
            lo, hi = lo + 1, hi
        out.append([x, l, lo, hi])
        i += max(l, 1)
    return out


def clampf(fac):
    return [small_ints(f) for f in fac]


VMAPS = [lambda c: c + 96, lambda c: c - 1, lambda c: (0, 1, 128, 254, 255)[c], lambda c: (0, 254, 255, 0, 0)[c]]


def parse_vectors(ctx, prog, vec, key):
    """replays the behaviours of the specification through the tool"""
    T, E = [], []
    for i, v in enumerate(vec):
        f = VMAPS[i % 4 if max(v["t"]) < 3 else i % 3]
        T.append(bytes(f(c) for c in v["t"]))
        E.append((f, v))
    for n, (t, fac, fl) in enumerate(run_parse(ctx, prog, T)):
        pass
        yield t, fac, fl


def c05(ctx):
    vec = mc_parse(ctx)
    by = {}
    T = []
    for i, v in enumerate(vec):
        f = VMAPS[i % 4 if max(v["t"]) < 3 else i % 3]
        t = bytes(f(c) for c in v["t"])
        by[t] = v
        T.append(t)
    runs = []

    def add(res):
        for t, fac, f in res:
            n = len(t)
            r = {"k": "lz", "t": list(t), "cnt": int_or(f.get("factors")), "len": int_or(f.get("length")),
                 "_what": "count_z on %s wrote %s" % (show(t, 120), show(fac, 120))}
            if n <= 120:
                r["ev"] = clampf(fac)
            else:
                r["sa"], r["rk"] = gen.suffix_array(t)
                r["ev"] = clampf(intervals(t, r["sa"], r["rk"], fac))
            runs.append(r)
    res = run_parse(ctx, "count_z", gen.dedup(T))
    for t, fac, f in res:
        v = by[t]
        ctx.expect_vector([l for _, l in fac] == v["lz"], "count_z on %s wrote factors of lengths %s, the specification %s" % (
            show(t), [l for _, l in fac], v["lz"]), text=t, factors=fac, expected=v["lz"])
    add(res)
    T = texts(ctx, ctx.pick(150, 700), ctx.pick(120, 600), ctx.pick(22, 100), maxbig=8193)
    T += [b"a" * 20000, b"ab" * 12000, gen.fib(20), gen.thue(13), bytes(ctx.rng.choice(b"ab") for _ in range(ctx.pick(9000, 40000))),
          bytes(ctx.rng.randrange(256) for _ in range(6000)) * 2] + long_repeats(ctx)
    add(run_parse(ctx, "count_z", gen.dedup(T)))
    ctx.validate("TR_Parse", runs, kind="LZ77", **TR("Pa"))


def c06(ctx):
    vec = mc_parse(ctx)
    by, T = {}, []
    for i, v in enumerate(vec):
        f = VMAPS[i % 4 if max(v["t"]) < 3 else i % 3]
        t = bytes(f(c) for c in v["t"])
        by[t] = [[x if l else f(x), l] for x, l in v["lex"]]
        T.append(t)
    T2 = texts(ctx, ctx.pick(200, 800), ctx.pick(150, 700), ctx.pick(20, 100), maxbig=8193)
    T2 += [b"a" * 20000, b"ab" * 12000, gen.fib(20), gen.thue(13), bytes(ctx.rng.choice(b"ab") for _ in range(ctx.pick(20000, 60000))),
           bytes(ctx.rng.randrange(256) for _ in range(6000)) * 2] + long_repeats(ctx)
    runs = []
    for t, fac, f in run_parse(ctx, "count_lexparse", gen.dedup(T + T2)):
        if t in by:
            ctx.expect_vector(fac == by[t], "count_lexparse on %s wrote %s, the specification %s" % (show(t), fac, by[t]),
                              text=t, factors=fac, expected=by[t])
        sa, rk = gen.suffix_array(t)
        runs.append({"k": "lex", "t": list(t), "sa": sa, "rk": rk, "ev": clampf(fac), "cnt": int_or(f.get("factors")),
                     "len": int_or(f.get("length")), "_what": "count_lexparse on %s wrote %s" % (show(t, 120), show(fac, 120))})
    ctx.validate("TR_Parse", runs, kind="lex-parse", **TR("Pa"))


def c07(ctx):
    vec = mc_parse(ctx)
    by, T = {}, []
    for i, v in enumerate(vec):
        f = VMAPS[i % 4 if max(v["t"]) < 3 else i % 3]
        t = bytes(f(c) for c in v["t"])
        if 0 in t:
            t = bytes(c + 1 for c in t) if 255 not in t else bytes(c + 96 for c in v["t"])
        by[t] = [[a - 1, b] for a, b in v["mus"]]
        T.append(t)
    T += texts(ctx, ctx.pick(250, 1000), ctx.pick(250, 1000), ctx.pick(30, 120), full=False, maxbig=8193)
    T += [b"a", b"ab", b"aa", b"\xff", b"\xff\xff", b"a" * 1000, gen.fib(14), bytes(ctx.rng.choice(b"ab") for _ in range(ctx.pick(15000, 60000))),
          bytes(ctx.rng.choice(b"acgt") for _ in range(ctx.pick(66000, 70000)))] + long_repeats(ctx)
    T = gen.dedup(T)
    cases = []
    for i, t in enumerate(T):
        src = ctx.write(t)
        args = [[], ["-i", src], ["-p", len(t) + i % 2, "--infilename", src]][i % 3]
        cases.append({"prog": "mus", "args": args, "stdin": t if i % 3 == 0 else None, "timeout": 120})
    runs = []
    for t, c, r in zip(T, cases, ctx.run(cases)):
        m = re.fullmatch(rb"RESULT .*mus=\[((?:\(\d+, \d+\)(?:, )?)*)\]\n", r["out"], re.S)
        if r["rc"] != 0 or not m:
            ctx.violation("mus on %s: status %s, output %s" % (show(t, 150), r["rc"], show(r["out"])), kind="exec", case=c, stderr=r["err"][:400])
            continue
        mus = [[int(a), int(b)] for a, b in re.findall(rb"\((\d+), (\d+)\)", m.group(1))]
        if t in by:
            ctx.expect_vector(mus == by[t], "mus on %s reported %s, the specification %s" % (show(t), mus, by[t]), text=t, got=mus, expected=by[t])
        sa, rk = gen.suffix_array(t)
        lcp = lcp_of(t, sa) + [0]
        ev = [[lcp[rk[i] - 1], lcp[rk[i]]] for i in range(len(t))]
        ml = [0] * len(t)
        if any(a >= len(t) or b < 1 for a, b in mus) or len({a for a, b in mus}) < len(mus):
            ctx.violation("mus on %s reported %s" % (show(t, 150), show(mus)), kind="exec", case=c)
            continue
        for a, b in mus:
            ml[a] = b
        runs.append({"k": "mus", "t": list(t), "sa": sa, "rk": rk, "ev": ev, "ml": small_ints(ml), "mus": clampf([[a + 1, b] for a, b in mus]),
                     "_what": "mus on %s reported %s" % (show(t, 120), show(mus, 160))})
    ctx.validate("TR_Parse", runs, kind="minimal unique substrings", **TR("Pa"))


def c08(ctx):
    vec = []
    for sig, n in ctx.pick([(2, 5), (3, 4)], [(2, 7), (3, 5)]):
        vec += ctx.model_check("MC_Attractor", {"SIGMA": sig, "MAXN": n}, want_vectors=True, timeout=1500,
                               inv=["Sound", "Decides", "ByRank", "ByPath", "Monotone", "Export"])
    rng = ctx.rng
    cases, meta = [], []

    def add(t, p, exp=None):
        i = len(cases)
        src = ctx.write(t) if i % 2 else None
        p = list(p)
        if i % 5 == 4 and p:
            p = p[::-1] + [rng.choice(p)]
        a = (["-a"] + p if i % 3 else ["--attractor"] + p) if p else []
        args = a if not src else ["-i", src] + a
        if i % 7 == 3:
            args = ["-p", len(t)] + args
        cases.append({"prog": "is_stringattractor", "args": args, "stdin": None if src else t})
        meta.append((t, p, exp))
    for i, v in enumerate(vec):
        f = (lambda c: c + 96, lambda c: c, lambda c: (0, 1, 128, 254)[c])[i % 3]
        add(bytes(f(c) for c in v["t"]), [x for x, b in enumerate(v["p"]) if b], v["valid"])
    T = gen.mix(rng, ctx.pick(250, 900), 0, 0, alphas=gen.ALPHAS)
    for t in T:
        n = len(t)
        for q in (0.2, 0.5, 0.8):
            add(t, [x for x in range(n) if rng.random() < q])
    # minimal attractors: remove positions greedily while the set stays one, then test it and one removal
    for t in [t for t in T if len(t) <= 24][:ctx.pick(40, 200)]:
        p = set(range(len(t)))
        for x in rng.sample(sorted(p), len(p)):
            if attractor(t, p - {x}):
                p.discard(x)
        add(t, sorted(p))
        if p:
            add(t, sorted(p - {rng.choice(sorted(p))}))
            y = rng.choice(sorted(p))
            add(t, sorted((p - {y}) | {max(0, y - 1)}))
            add(t, sorted((p - {y}) | {min(len(t) - 1, y + 1)}))
    # period-doubling, Fibonacci and powers: small attractors of long texts
    for k in range(5, ctx.pick(11, 13)):
        add(gen.perioddoubling(k - 1), [3 * (1 << (k - 4)) - 1, 3 * (1 << (k - 3)) - 1])
        add(gen.perioddoubling(k - 1), [3 * (1 << (k - 4)) - 1, 3 * (1 << (k - 3)) - 2])
    fl = [1, 2]
    while len(fl) < 20:
        fl.append(fl[-1] + fl[-2])
    for k in range(3, ctx.pick(14, 17)):
        t = gen.fib(k)
        assert len(t) == fl[k]
        add(t, [fl[k - 1] - 1, fl[k - 1] - 2])
        add(t, [fl[k - 1] - 1, fl[k - 1]])
    for n in (1, 2, 255, 256, 257, 300):
        add(b"a" * n, [0])
        add(b"a" * n, [n - 1])
        add(b"a" * n, [])
        add(b"a" * (n - 1) + b"b", [n - 1])
        add(b"a" * (n - 1) + b"b", [n - 1, 0])
    for _ in range(ctx.pick(30, 150)):
        n = rng.choice([30, 60, 100, 200, 257, 600, 1100])
        t = bytes(rng.choice(rng.choice([b"ab", b"abcd"])) for _ in range(n))
        g = rng.randrange(1, 12)
        add(t, list(range(g - 1, n, g)))
        add(t, [x for x in range(n) if rng.random() < 0.6])
    # sets that only miss long substrings: the shortest uncovered one is about x characters long
    for x, y in ctx.pick([(100, 200), (126, 300), (200, 600), (254, 300), (255, 600), (256, 700), (300, 450), (520, 1100)],
                         [(x, y) for x in (30, 126, 127, 128, 254, 255, 256, 257, 511, 512, 1000) for y in (x + 1, x + 2, x + 50, 2 * x, 1100)]):
        for d in (0, 1):
            add(b"a" * x + b"b" + b"a" * y, [x - 1 + d, x + d])
            add((b"a" * x + b"b" + b"a" * y)[::-1], [y - d, y + 1 - d])
        w = (b"abaab" * y)[:y]
        add(w[:x] + b"c" + w, [x - 2, x - 1, x])
        add(w[:x] + b"c" + w, [0, 1, x])
        add(w[:x] + b"c" + w, [x, x + y - 3, x + y - 4])
    # positions far inside long texts; in a random text most short substrings need many positions
    for n in ctx.pick([4097, 66000, 70000], [4097, 8193, 40000, 65535, 65536, 65537, 66000, 70000, 131072, 140000]):
        t = bytes(rng.randrange(1, 256) for _ in range(n))
        ok = set(range(0, n, 2))                   # every second position is enough where no character ...
        first = {}
        for x, c in enumerate(t):
            first.setdefault(c, set()).add(x)
        ok |= {min(v) for v in first.values()}     # ... is missed
        add(t, range(n - 1, -1, -1))
        add(t, sorted(ok))
        add(t, sorted(ok - {n - 2, n - 1, n - 3}))
        add(t, [x for x in range(n) if x < 1000 or x >= n - 3000])
        u = bytes(rng.choice(b"ac") for _ in range(n // 2))
        for w in (u + b"b" + u, u + u):
            h = len(u)
            add(w, sorted({*range(h), h}))                                # all of one copy and the seam
            add(w, sorted({*range(h, len(w)), h - 1}))                    # the other copy
            add(w, sorted({*range(h, len(w))} - {len(w) - 1}))
            add(w, sorted({*range(h - 1, len(w))} - {h, h + 1, rng.randrange(h + 9, len(w))}))
    f = [1, 1]
    while len(f) < 40:
        f.append(f[-1] + f[-2])
    for k in ctx.pick([22], [22, 25]):
        t = gen.fib(k)
        x = next(i for i in range(40) if f[i] == len(t))
        add(t, [f[x - 1] - 1, f[x - 1] - 2])
    t = gen.fib(17)                                # (it prints every substring that is missed)
    add(t, [f[17] - 1, f[17]])
    add(t, [f[16] - 1, f[16]])
    # positions beyond the terminated text
    for t in T[:ctx.pick(60, 200)]:
        n = len(t)
        add(t, sorted(rng.sample(range(n), rng.randrange(0, n))) + [n + rng.choice([1, 1, 2, 100, 2**31, 2**32, 2**63])])
    for n in (255, 256, 257, 300, 600, 3000, 70000):
        t = gen.rand(rng, n, b"ab")
        for x in (1, 2, 256, 65536 - n % 65536, 2**32 - n + 1, 2**32, 2**32 + 1, 2**63, 2**64 - 1 - n):
            if x > 0:
                add(t, rng.choice([[], [0], sorted(rng.sample(range(n), 3))]) + [n + x])
                if n < 700:
                    add(t, [n + x] + list(range(n)))
    runs = []
    for (t, p, exp), c, r in zip(meta, cases, ctx.run(cases)):
        o = r["out"]
        if r["rc"] == "flood":                     # more names than are kept: it was ended while it named them
            o = o[:o.rfind(b"\n") + 1] + b"not a valid attractor\n"
        names = []
        if o == b"valid attractor\n":
            said = "valid"
        elif o.endswith(b"not a valid attractor\n"):
            said = "invalid"
            plain = all(32 <= c < 127 and c != 39 for c in t)
            body = o[:-len(b"not a valid attractor\n")]
            if plain:
                if not re.fullmatch(rb"(substring '[^']*' not covered!\n)*", body):
                    said = "garbled"
                names = [list(x) for x in re.findall(rb"substring '([^']*)' not covered!\n", body)]
        elif o == b"":
            said = "refused"
        else:
            said = "garbled"
        status = {0: "valid", 2: "invalid", "flood": "invalid"}.get(r["rc"], "refused" if isinstance(r["rc"], int) else "died")
        verdict = said if said == status else "%s, status %s" % (said, r["rc"])
        if exp is not None:
            ctx.expect_vector(verdict == ("valid" if exp else "invalid"), "is_stringattractor on %s with %s: %s, the specification %s" % (
                show(t), p, verdict, "valid" if exp else "invalid"), text=t, positions=p)
        if len(t) in p or any(x < 0 for x in p):
            continue
        if len(t) > 150 and len(names) > 6:      # naming is judged on a few of them
            names = names[:2] + rng.sample(names[2:-2], 2) + names[-2:]
        sa, rk = gen.suffix_array(t)
        runs.append({"k": "att", "t": list(t), "sa": sa, "rk": rk, "p": [min(x, 10**9) for x in p], "verdict": verdict, "names": names,
                     **(att_hints(t, p, sa, rk) if len(t) > 16 and all(x < len(t) for x in p) and (len(t) > 400 or len(runs) % 4) else {}),
                     "_what": "is_stringattractor on %s with positions %s: %s, names %s" % (show(t, 120), show(p, 100), verdict, show(o, 100))})
    ctx.validate("TR_Parse", runs, kind="attractors", **TR("Pa"))


def att_hints(t, p, sa, rk):
    lcp = lcp_of(t, sa)
    d, nx = [0] * len(t), 10**9
    p = set(p)
    for i in range(len(t) - 1, -1, -1):
        nx = 0 if i in p else min(nx + 1, 10**9)
        d[i] = nx
    return {"plcp": [lcp[rk[i] - 1] for i in range(len(t))], "dist": d, "ev": lcp}


def attractor(t, p):
    n = len(t)
    for l in range(1, n + 1):
        cov, al = set(), set()
        for j in range(n - l + 1):
            w = t[j:j + l]
            al.add(w)
            if any(x in p for x in range(j, j + l)):
                cov.add(w)
        if cov != al:
            return False
    return True


REGISTRY = {"C05": c05, "C06": c06, "C07": c07, "C08": c08}
