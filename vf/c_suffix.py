"""C02, C03, C04 (transforms), C17 (tables)"""
from . import gen
from .core import *
from .c_lyndon import result_fields, int_or, small_ints
from .gen import lcp_of

TR = lambda p: dict(consts={"SInit": ("<-", p + "SInit"), "SStep": ("<-", p + "SStep"), "SFinal": ("<-", p + "SFinal")})
INVALID = 2**32 - 1


def sv(x):
    return [-1 if v == INVALID else v for v in small_or(x)]


def small_or(x):
    return [v if v == INVALID else (v if -2**31 < v < 2**31 else -7) for v in x]


def c17(ctx):
    vec = []
    for sig, n, cn in ctx.pick([(2, 8, 5), (3, 5, 5)], [(2, 11, 5), (3, 7, 6), (4, 5, 5)]):
        vec += ctx.model_check("MC_Suffix", {"SIGMA": sig, "MAXN": n, "CERTN": cn}, want_vectors=True,
                               inv=["SaCorrect", "CertExact", "KasaiCorrect", "KasaiBound", "ChainsCorrect", "ByMinima", "Export"])
    reqs, exp = [], []

    def add(r, e):
        reqs.append(r)
        exp.append(e)
    for i, v in enumerate(vec):
        n = len(v["t"])
        t = [c + (96 if i % 2 else 251) for c in v["t"]]
        sa = [x - 1 for x in v["sa"]]
        phi = [0] * n
        for a, b in zip([sa[-1]] + sa[:-1], sa):
            phi[b] = a
        add(("sa_naive", t), sa)
        add(("divsufsort", t), sa)
        add(("inv@" + ("i32", "u32", "i64", "u8", "u16", "usize")[i % 6], sa), [x - 1 for x in v["rk"]])
        add(("phi@" + ("i32", "u32", "i64", "u8", "u16", "usize")[i % 6], sa), phi)
        add(("plcp", t, phi), v["plcp"])
        add(("lcp@" + ("i32", "u32", "i64", "u8", "u16", "usize")[i % 6], v["plcp"], sa), [v["plcp"][x] for x in sa])
        ty = ("u8", "i32", "i64", "u32")[i % 4]
        add(("psv@" + ty, t), [x - 1 if x else INVALID for x in v["psv"]])
        add(("nsv@" + ty, t), [x - 1 if x else INVALID for x in v["nsv"]])
    for r, (k, o), e in zip(reqs, ctx.lib(reqs), exp):
        ctx.expect_vector(k == "ok" and o == e, "%s gave %s, the specification %s" % (show(r), show(o), show(e)),
                          request=r, got=o, expected=e)
    # recorded tables
    rng = ctx.rng
    T = gen.mix(rng, ctx.pick(100, 500), ctx.pick(150, 700), ctx.pick(20, 100), alphas=gen.ALPHAS + gen.FULL, maxbig=8193)
    T += [b"a" * n for n in (1, 2, 3, 100, 300)] + [b"ab" * 200, gen.fib(14), gen.thue(9), b"a" * 299 + b"\0", b"\0" * 20]
    T += [gen.fib(20), b"a" * 66000 + b"b", bytes(rng.choice(b"ab") for _ in range(ctx.pick(20000, 70000))), b"ab" * 33000]
    # index types: the narrow ones where the length just allows them
    ty = lambda i: ("i32", "u32", "i64", "usize", "u16" if len(T[i]) <= 65536 else "u32", "u8" if len(T[i]) <= 256 else "u16" if len(T[i]) <= 65536 else "i64")[i % 6]
    for n in (255, 256, 65535, 65536):
        while len(T) % 6 != (5 if n < 300 else 4):
            T.append(gen.rand(rng, 1 + len(T) % 40, b"abc") )
        T.append(gen.rand(rng, n, b"abcd"))
    cert = {t: gen.suffix_array(t) for t in T}
    sa0 = {t: [x - 1 for x in cert[t][0]] for t in T}
    sax = ctx.lib1([("divsufsort", t) for t in T])
    inv = ctx.lib1([("inv@" + ty(i), sa0[t]) for i, t in enumerate(T)])
    phi = ctx.lib1([("phi@" + ty(i), sa0[t]) for i, t in enumerate(T)])
    true_phi = {}
    for t in T:
        p = [0] * len(t)
        s = sa0[t]
        for a, b in zip([s[-1]] + s[:-1], s):
            p[b] = a
        true_phi[t] = p
    plcp = ctx.lib1([("plcp", t, true_phi[t]) for t in T])
    okp = [p if p is not None else [] for p in plcp]
    lcp = ctx.lib1([("lcp@" + ty(i), okp[i] if len(okp[i]) == len(t) else [0] * len(t), sa0[t]) for i, t in enumerate(T)])
    direct = [t for t in T if len(t) <= 600 or (len(t) <= 8193 and max(lcp_of(t, cert[t][0])) < 200)]     # (sorts by comparing whole suffixes)
    tys = [("u8", "u16", "u32", "i32", "i64")[i % 5] for i in range(len(direct))]
    nav = dict(zip(direct, ctx.lib1([("sa_naive@" + b, gen.wide(b, t)) for b, t in zip(tys, direct)])))
    runs = []
    for i, t in enumerate(T):
        if None in (inv[i], phi[i], plcp[i], lcp[i], sax[i]):
            continue
        r = {"k": "sa", "t": list(t), "sa": cert[t][0], "rk": cert[t][1], "inv": small_ints(inv[i]),
             "phi": small_ints(phi[i]), "lcp": small_ints(lcp[i]), "ev": small_ints(plcp[i]),
             "sax": small_ints(sax[i]), "_what": "tables of %s" % show(t, 120)}
        runs.append(r)
        if nav.get(t) is not None:
            runs.append({"k": "sa", "t": list(t), "sa": cert[t][0], "rk": cert[t][1], "ev": small_ints(plcp[i]),
                         "sax": small_ints(nav[t]), "_what": "suffixarray_naive of %s" % show(t, 120)})
    ctx.validate("TR_Suffix", runs, kind="inverse, phi, plcp, lcp, naive suffix array", **TR("Su"))
    # previous / next smaller entries of arbitrary arrays
    A = []
    for _ in range(ctx.pick(200, 1000)):
        n = rng.choice([1, 2, 3, 4, 5, 8, 16, 33, 100, 257])
        k = rng.choice([1, 2, 3, 10, 100, 100000])
        A.append([rng.randrange(k) for _ in range(n)])
    A += [list(range(n)) for n in (1, 2, 50, 400)] + [list(range(n, 0, -1)) for n in (2, 50, 400)] + [[7] * 300]
    A += [sa0[t] for t in T if 100 < len(t) <= 1100][:ctx.pick(20, 60)]
    # a long array, with a smaller entry only at the far end
    A += [[5] * 4000 + [1], [1] + [5] * 4000]
    for n in ctx.pick([1025, 4097, 5000, 66000], [513, 1025, 2049, 4097, 5000, 8193, 32769, 66000, 140000]):
        d = [n] + list(range(2 * n, n, -1)) + [n, 0]           # long chains of candidates, in both directions
        k = sorted(rng.sample(range(10 * n), n))
        A += [d, d[::-1], d + d[::-1], [7] + k + [3] + k[::-1] + [1], k[::-1] + k, [rng.randrange(1000) for _ in range(n)], list(range(n)), list(range(n, 0, -1))]
    n = 70000
    A += [[x ^ 1 for x in range(n)], [min(x, 3) + 1 for x in range(n)]]
    B = [(("u8", "u32", "i64", "i32")[i % 4] if max(a) < 256 else ("u32", "i64", "i32")[i % 3]) for i, a in enumerate(A)]
    ps = ctx.lib1([("psv@" + b, a) for a, b in zip(A, B)])
    ns = ctx.lib1([("nsv@" + b, a) for a, b in zip(A, B)])
    runs = [{"k": "sv", "a": a, "psv": sv(p), "nsv": sv(q), "_what": "psv/nsv@%s of %s" % (b, show(a, 120))}
            for a, b, p, q in zip(A, B, ps, ns) if p is not None and q is not None]
    ctx.validate("TR_Suffix", runs, kind="psv, nsv", **TR("Su"))


REGISTRY = {"C17": c17}


def rot_cert(t):
    n = len(t)
    return gen.omega_order([(i + 1) % n for i in range(n)], t)


def bij_cert(t):
    ends = gen.duval(t)
    nx, s = [0] * len(t), 0
    for e in ends:
        for i in range(s, e):
            nx[i] = i + 1
        nx[e - 1] = s
        s = e
    order, cls = gen.omega_order(nx, t)
    sa, rk = gen.suffix_array(t)
    pos = [0] * len(t)
    for r, p in enumerate(order):
        pos[p - 1] = r + 1
    return {"ends": ends, "nx": [x + 1 for x in nx], "ord": order, "cls": cls, "sa": sa, "rk": rk, "pos": pos}


def mc_bwt(ctx):
    vec = []
    for sig, n in ctx.pick([(2, 7), (3, 5)], [(2, 10), (3, 7), (4, 5)]):
        vec += ctx.model_check("MC_Bwt", {"SIGMA": sig, "MAXN": n}, want_vectors=True,
                               inv=["FactorsRight", "TerminatedRight", "RotationRight", "BijectiveRight", "InverseRight",
                                    "UnBijectiveRight", "CertRight", "Export"])
    return vec


MAPS = [lambda c: c + 96, lambda c: (0, 127, 128, 254, 255)[c], lambda c: (0, 1, 2, 10, 255)[c]]


def replay(ctx, reqs, exp):
    for r, (k, o), e in zip(reqs, ctx.lib(reqs), exp):
        ctx.expect_vector(k == "ok" and o == e, "%s gave %s, the specification %s" % (show(r), show(o), show(e)),
                          request=r, got=o, expected=e)


def c02(ctx):
    vec = mc_bwt(ctx)
    reqs, exp = [], []
    for i, v in enumerate(vec):
        f = MAPS[i % 3]
        f0 = lambda c: f(c) if c else 0
        t = [f(c) for c in v["t"]]
        sa = [x - 1 for x in v["sa"]]
        tb = [f0(c) for c in v["tb"]]
        reqs += [("bwt_sa", t + [0]), ("sa_naive", t + [0]), ("bwt_from_sa", t + [0], sa), ("bwt_sa", t),
                 ("bwt_from_sa@i64", [c - 5 for c in t + [0]], sa)]
        exp += [tb, sa, tb, [f(c) for c in v["nb"]], [c - 5 for c in tb]]
    replay(ctx, reqs, exp)
    rng = ctx.rng
    T = gen.mix(rng, ctx.pick(150, 600), ctx.pick(200, 900), ctx.pick(25, 120), maxbig=8193)
    T += [b"a", b"\xff", b"\x80" * 300, b"a" * 66000, gen.fib(22)[:40000] + b"c", b"ab" * 20000,
          bytes(rng.randrange(1, 256) for _ in range(ctx.pick(30000, 100000)))]
    runs = []
    W = [t + b"\0" for t in T] + T
    cert = {w: gen.suffix_array(w) for w in W}
    short = [w for w in W if len(w) <= 700 or (len(w) <= 8193 and max(lcp_of(w, cert[w][0])) < 200)]
    for fn, ws in (("bwt_sa", W), ("bwt_from_sa", W), ("naive", short)):
        tys = [("u8", "u16", "u8", "u32", "u8", "i32", "u8", "i64")[i % 8] for i in range(len(ws))]
        reqs = [("bwt_sa", w) if fn == "bwt_sa" else ("bwt_from_sa@" + b, gen.wide(b, w), [x - 1 for x in cert[w][0]]) if fn == "bwt_from_sa"
                else ("sa_naive@" + b, gen.wide(b, w)) for w, b in zip(ws, tys)]
        for w, b, o in zip(ws, tys, ctx.lib1(reqs)):
            if o is None:
                continue
            if fn == "bwt_from_sa":
                o = gen.unwide(b, o)
            if fn == "naive":      # the naive suffix array, seen through the transform it yields
                if sorted(o) != list(range(len(w))):
                    ctx.violation("suffixarray_naive(%s) is not a permutation: %s" % (show(w), show(o)), kind="lib", text=w)
                    continue
                o = [w[i - 1] for i in o]
            runs.append({"k": "suf", "t": list(w), "sa": cert[w][0], "rk": cert[w][1], "b": small_ints(o),
                         "_what": "%s(%s)" % (fn, show(w, 120))})
    # the tool
    cases, meta = [], []
    for i, t in enumerate(T):
        dollar = i % 4 != 3
        p = ctx.write(t)
        out = ctx.file()
        args = [[], ["-i", p], ["-i", p, "-o", out], ["-o", out], ["--infilename", p, "-p", len(t) + 3]][i % 5] + ([] if dollar else ["-n"])
        cases.append({"prog": "bwt", "args": args, "stdin": t if i % 5 in (0, 3) else None, "out": out if i % 5 in (2, 3) else None})
        meta.append(t + b"\0" if dollar else t)
    # zero bytes inside are refused, at the end of a -n text they are not
    for z in range(ctx.pick(60, 200)):
        t = bytearray(rng.choice([t for t in T if len(t) < 1200]))
        k = rng.choice([0, len(t) // 2, len(t) - 1, rng.randrange(len(t))])
        t[k] = 0
        if z % 2:
            t = t + bytearray(b"\0")
        dollar = z % 3 != 0
        cases.append({"prog": "bwt", "args": [] if dollar else ["-n"], "stdin": bytes(t)})
        meta.append(bytes(t) + (b"\0" if dollar else b""))
    for i, t in enumerate(gen.far(rng, marks=(512, 4096, 8192, 16384, 65536), rare=b"\0") + [gen.rand(rng, 9999, b"ab") + b"\0"]):
        src = ctx.write(t) if i % 2 else None
        cases.append({"prog": "bwt", "args": [[], ["-n"]][i % 3 == 0] + (["-i", src] if src else []), "stdin": None if src else t})
        meta.append(t + (b"\0" if i % 3 else b""))
    for c, w, r in zip(cases, meta, ctx.run(cases)):
        sa, rk = cert.get(w) or gen.suffix_array(w)
        b = (r["file"] or b"") if c.get("out") else r["out"]
        if r["rc"] in ("timeout",) or (r["rc"] != 0 and b):
            ctx.violation("bwt %s on %s: status %s with output %s" % (c["args"], show(w), r["rc"], show(b)), kind="exec", case=c)
            continue
        runs.append({"k": "suf", "t": list(w), "sa": sa, "rk": rk, "b": list(b), "refused": r["rc"] != 0,
                     "_what": "bwt %s on %s: status %s" % (c["args"], show(w, 120), r["rc"])})
    ctx.validate("TR_Bwt", runs, kind="terminated BWT", **TR("Bw"))


def c03(ctx):
    vec = mc_bwt(ctx)
    reqs, exp = [], []
    for i, v in enumerate(vec):
        f = (lambda c: c + 96, lambda c: c - 1, lambda c: (0, 0, 128, 255, 255)[c])[i % 3 if max(v["t"]) < 4 else i % 2]
        t = [f(c) for c in v["t"]]
        rb = [f(c) for c in v["rb"]]
        reqs += [("bwt_naive", t), ("bwt_matrix", t), ("bwt_naive@i64", [10**15 - 3 + c for c in t])]
        exp += [rb, rb, [10**15 - 3 + c for c in rb]]
    replay(ctx, reqs, exp)
    rng = ctx.rng
    T = gen.mix(rng, ctx.pick(120, 500), ctx.pick(200, 900), ctx.pick(20, 100), alphas=gen.ALPHAS + gen.FULL * 2, maxbig=8193)
    # rotations of one text, and texts around the tool's switch from one algorithm to the other
    for t in [x for x in T if 1 < len(x) < 200][:ctx.pick(25, 100)]:
        k = rng.randrange(len(t))
        T.append(t[k:] + t[:k])
    for n in (97, 98, 99, 100, 101, 102):
        T += [b"\0" * n, b"a" * n, (b"ab\0" * n)[:n], bytes(rng.randrange(256) for _ in range(n)), (b"ba" * n)[:n],
              b"\0" * (n - 1) + b"a", b"a" * (n - 1) + b"\0", bytes(rng.choice(b"ab") for _ in range(n))]
    T += [b"\0", b"a", b"a" * 20000, b"ab" * 16000, b"\0\1" * 8000, bytes(rng.randrange(256) for _ in range(ctx.pick(70000, 100000))),
          gen.fib(21), b"b" * 66000 + b"a", b"b" * 65535 + b"a" + b"b" * 3, b"a" * 65536 + b"b" + b"a" * 70]
    T = gen.dedup(T)
    W = T + [t + b"\0" for t in T if len(t) < 300]
    cert = {w: rot_cert(w) for w in gen.dedup(W)}
    runs = []
    # rotations that agree on thousands of characters, the larger one starting first (few of them: the direct sort is quadratic)
    far = []
    for m, al in ((600, b"ab"), (2100, b"acg"), (ctx.pick(5000, 12000), b"\0\1\xff")):
        r = bytes(rng.choice(al) for _ in range(m))
        far += [r + b"\xfe" + r + b"\xfd", r + b"\xfd" + r + b"\xfe" + r]
    far += [b"a" * 1100 + b"c" + b"a" * 1100 + b"b"]
    W += far
    cert.update((w, rot_cert(w)) for w in far)
    for fn, ws in (("bwt_naive", [w for w in W if len(w) <= 520] + far), ("bwt_matrix", W)):
        tys = [("u8", "u16", "u8", "u32", "i32", "i64")[i % 6] if fn == "bwt_naive" else "u8" for i in range(len(ws))]
        for w, b, o in zip(ws, tys, ctx.lib1([(fn + "@" + b, gen.wide(b, w)) for w, b in zip(ws, tys)])):
            if o is not None:
                runs.append({"k": "rot", "t": list(w), "ord": cert[w][0], "cls": cert[w][1], "b": small_ints(gen.unwide(b, o)),
                             "_what": "%s@%s(%s)" % (fn, b, show(w, 120))})
    cases, meta = [], []
    for i, t in enumerate(T):
        dollar = i % 2 == 0
        p = ctx.write(t)
        out = ctx.file()
        cases.append({"prog": "bwt", "args": ["-u"] + ([] if dollar else ["-n"]) + (["-i", p] if i % 3 else []) + (["-o", out] if i % 5 == 1 else []),
                      "stdin": None if i % 3 else t, "out": out if i % 5 == 1 else None})
        meta.append(t + b"\0" if dollar else t)
    for c, w, r in zip(cases, meta, ctx.run(cases)):
        b = r["file"] if c.get("out") else r["out"]
        if r["rc"] != 0 or b is None:
            ctx.violation("bwt %s on %s: status %s" % (c["args"], show(w), r["rc"]), kind="exec", case=c, stderr=r["err"][:300])
            continue
        if w not in cert:
            cert[w] = rot_cert(w)
        runs.append({"k": "rot", "t": list(w), "ord": cert[w][0], "cls": cert[w][1], "b": list(b),
                     "_what": "bwt %s on %s" % (c["args"], show(w, 120))})
    ctx.validate("TR_Bwt", runs, kind="rotation BWT", **TR("Bw"))


def c04(ctx):
    vec = mc_bwt(ctx)
    reqs, exp = [], []
    # no two texts of the specification share a transform
    seen = {}
    for i, v in enumerate(vec):
        key = (len(v["t"]), tuple(v["bb"]))
        if seen.setdefault(key, v["t"]) != v["t"]:
            raise ToolError("specification: BBWT not injective")
        f = (lambda c: c + 96, lambda c: c - 1, lambda c: (0, 0, 128, 255, 255)[c])[i % 3 if max(v["t"]) < 4 else i % 2]
        t = [f(c) for c in v["t"]]
        bb = [f(c) for c in v["bb"]]
        reqs += [("bbwt", t), ("bbwt@i64", [c * 10**15 - 7 for c in t]), ("bbwt@u16", [c + 300 for c in t])]
        exp += [bb, [c * 10**15 - 7 for c in bb], [c + 300 for c in bb]]
    replay(ctx, reqs, exp)
    rng = ctx.rng
    T = gen.mix(rng, ctx.pick(250, 900), ctx.pick(300, 1200), ctx.pick(12, 60), alphas=gen.ALPHAS + gen.FULL, maxbig=8193)
    # powers of Lyndon words, many equal factors, factors that are prefixes of each other
    for _ in range(ctx.pick(60, 300)):
        w = bytes(rng.choice(b"ab") for _ in range(rng.randrange(1, 9)))
        u = bytes(rng.choice(b"ab") for _ in range(rng.randrange(1, 9)))
        T.append(w * rng.randrange(1, 9) + u * rng.randrange(1, 9) + w[:rng.randrange(len(w) + 1)])
        x = bytes(rng.choice(b"abc") for _ in range(rng.randrange(1, 60)))
        T.append(x * 2 + x[:rng.randrange(len(x))])
    T += [b"a" * 300, b"ba" * 100, b"\0" * 50, b"aab" * 80, b"a" * 1100, bytes(range(255, -1, -1)), bytes(range(256)), gen.fib(13), gen.thue(9)]
    T += [bytes(rng.choice(b"abcd") for _ in range(n)) for n in (4096, 9000, 66000)] + [b"b" * 66000, b"cb" * 300 + b"ab" * 300, b"a" + b"b" * 66000]
    T = gen.dedup(T)
    runs = []
    tys = [("u8", "u16", "u8", "u32", "u8", "i32", "u8", "i64")[i % 8] for i in range(len(T))]
    for t, b, o in zip(T, tys, ctx.lib1([("bbwt@" + b, gen.wide(b, t)) for t, b in zip(T, tys)])):
        if o is not None:
            r = {"k": "bij", "t": list(t), "b": small_ints(gen.unwide(b, o)), "_what": "bbwt_naive@%s(%s)" % (b, show(t, 120))}
            r.update(bij_cert(t))
            runs.append(r)
    ctx.validate("TR_Bwt", runs, kind="bijective BWT", **TR("Bw"))


REGISTRY.update(C02=c02, C03=c03, C04=c04)
