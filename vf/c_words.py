"""C18..C25: borders, conjugates, enumerators, words, generators"""
from . import gen
from .core import *
from .c_lyndon import int_or, small_ints
from .c_suffix import TR, rot_cert, MAPS

WO = TR("Wo")
TYPES = [("u8", lambda c: c + 96), ("u8", lambda c: (0, 127, 128, 254, 255)[c]), ("u16", lambda c: (0, 255, 256, 257, 65535)[c]),
         ("i32", lambda c: (c - 2) * 10**9), ("i64", lambda c: (c - 2) * 2**40), ("u32", lambda c: (0, 1, 2**16, 2**31, 2**32 - 1)[c])]


def mc_border(ctx):
    vec = []
    for sig, n, p in ctx.pick([(2, 8, 5), (3, 5, 3)], [(2, 11, 7), (3, 7, 4), (4, 5, 3)]):
        vec += ctx.model_check("MC_Border", {"SIGMA": sig, "MAXN": n, "PREN": p}, want_vectors=True,
                               inv=["BorderRight", "PeriodRight", "PrimitiveRight", "PreRight", "SmallestRight", "Export"])
    return vec


def expect(ctx, reqs, exp, ok=lambda o, e: o == e):
    for r, (k, o), e in zip(reqs, ctx.lib(reqs), exp):
        ctx.expect_vector(k == "ok" and ok(o, e), "%s gave %s, the specification %s" % (show(r), show(o), show(e)),
                          request=r, got=o, expected=e)


def long_texts(ctx, maxbig=8193):
    rng = ctx.rng
    T = gen.mix(rng, ctx.pick(150, 700), ctx.pick(150, 700), ctx.pick(20, 100), alphas=gen.ALPHAS + gen.FULL, maxbig=maxbig)
    for n in (1, 2, 3, 4, 100, 255, 256, 257, 300):
        T += [b"a" * n, b"ab" * n, b"a" * n + b"b", b"b" + b"a" * n, b"ab" * n + b"a", b"aab" * n, b"aab" * n + b"aa", b"\0" * n]
    for m in (2, 3, 4, 5, 6, 7, 12, 25, 36, 60):
        for d in (1, 2, 3, 5, 8, 13):
            u = gen.rand(rng, d, b"ab")
            T.append(u * m)
            x = bytearray(u * m)
            x[rng.randrange(len(x))] ^= 1
            T.append(bytes(x))
    return gen.dedup([t for t in T if t])


# ------------------------------------------------------------------ C18
def c18(ctx):
    vec = mc_border(ctx)
    reqs, exp = [], []
    for i, v in enumerate(vec):
        for ty, f in ([TYPES[i % len(TYPES)], TYPES[(i + 1 + i // 7) % len(TYPES)]] if ctx.quick else TYPES):
            t = [f(c) for c in v["t"]]
            reqs += [("border@" + ty, t), ("period@" + ty, t), ("primitive@" + ty, t)]
            exp += [v["b"], v["p"], v["prim"]]
    expect(ctx, reqs, exp)
    T = [b""] + long_texts(ctx) + [gen.fib(20), b"a" * 66000, b"a" * 2000 + b"b" + b"a" * 2000, b"abaab" * 13107,
                                   gen.thue(16), gen.thue(16) + b"a"]
    # repetitions and near repetitions longer than 2^16, of short and of long roots
    for d in (2, 3, 7, 257, 1009, 33001, 70000):
        u = gen.rand(ctx.rng, d, b"ab") if d > 3 else b"aab"[:d]
        m = -(-66000 // d) + ctx.rng.randrange(2) if d < 65536 else 1
        T += [u * m, u * m + u[:ctx.rng.randrange(1, d)]]
    for d in ctx.pick([5, 500], [5, 500, 43690, 65536]):
        u = gen.rand(ctx.rng, d, b"abc")
        x = bytearray(u * (131080 // d + 1))
        T.append(bytes(x))
        x[ctx.rng.randrange(65536, len(x))] ^= 1
        T.append(bytes(x))
    ty = lambda i: ("u8", "u16", "i32", "u32", "i64")[i % 5]
    reqs = []
    P = [(t, b) for i, t in enumerate(T) for b in dict.fromkeys([ty(i)] + (["u8"] if len(t) > 1000 else []))]
    for t, b in P:
        w = gen.wide(b, t)
        reqs += [("border@" + b, w), ("period@" + b, w) if t else ("border", w), ("primitive@" + b, w) if t else ("border", w)]
    out = ctx.lib1(reqs)
    runs, seen = [], set()
    for i, (t, ct) in enumerate(P):
        b, p, q = out[3 * i:3 * i + 3]
        if None in (b, p, q) or (len(t) > 1000 and (t, str((b, p, q))) in seen):      # (the same answer for another character type)
            continue
        seen.add((t, str((b, p, q))))
        runs.append({"k": "border", "t": list(t), "ev": small_ints(b), "per": p if t else -1,
                     "prim": int(q) if t else -1, "_what": "borders@%s of %s: %s, period %s, primitive %s" % (
                         ct, show(t, 100), show(b, 100), p, q)})
    ctx.validate("TR_Words", runs, kind="border array, period, primitivity", **WO)


# ------------------------------------------------------------------ C19
def c19(ctx):
    vec = mc_border(ctx)
    reqs, exp = [], []
    for i, v in enumerate(vec):
        for ty, f in ([TYPES[i % len(TYPES)], TYPES[(i + 1 + i // 7) % len(TYPES)]] if ctx.quick else TYPES):
            reqs.append(("lconj@" + ty, [f(c) for c in v["t"]]))
            exp.append([x - 1 for x in v["rots"]])
    expect(ctx, reqs, exp, lambda o, e: o in e)
    T = long_texts(ctx)
    # the smallest rotation at every position, boundary positions included
    for n in (2, 3, 5, 8, 31, 64, 255, 256, 257):
        base = bytes([97]) + bytes([98]) * (n - 1)
        for s in sorted({0, 1, 2, n // 2, n - 2, n - 1} & set(range(n))):
            T.append(base[s:] + base[:s])
        u = gen.fib(16)[:n]
        for s in sorted({0, 1, n // 3, n - 1}):
            T.append(u[s:] + u[:s])
    T += [gen.fib(20), b"b" * 40000 + b"a" + b"b" * 26000, b"ba" * 33000, bytes(ctx.rng.choice(b"ab") for _ in range(66000))]
    T = gen.dedup(T)
    ty = lambda i: ("u8", "u16", "i32", "u32", "i64")[i % 5]
    runs, seen = [], set()
    P = [(t, b) for i, t in enumerate(T) for b in dict.fromkeys([ty(i)] + (["u8"] if len(t) > 250 else []))]
    for (t, b), o in zip(P, ctx.lib1([("lconj@" + b, gen.wide(b, t)) for t, b in P])):
        if o is None or (t, o) in seen:             # (the same answer for another character type)
            continue
        seen.add((t, o))
        order, cls = rot_cert(t)
        runs.append({"k": "lconj", "t": list(t), "ord": order, "cls": cls, "start": int_or(o),
                     "_what": "lyndon_conjugate@%s(%s) = %s" % (b, show(t, 100), o)})
    ctx.validate("TR_Words", runs, kind="smallest rotations", **WO)
    T = [b""] + [t for t in T if len(t) <= 40][:ctx.pick(150, 400)] + [t for t in T if 40 < len(t) <= 257][:ctx.pick(12, 60)]
    runs = []
    for i, (t, o) in enumerate(zip(T, ctx.lib1([("conj@" + ty(i), gen.wide(ty(i), t)) for i, t in enumerate(T)]))):
        if o is None:
            continue
        runs.append({"k": "conj", "t": list(t), "ev": [gen.unwide(ty(i), x) for x in o[0]], "ended": o[1],
                     "_what": "rotations@%s of %s" % (ty(i), show(t, 100))})
    # all rotations of longer texts, looked at in samples
    S = []
    for n in ctx.pick([63, 64, 65, 127, 128, 129, 255, 256, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1024, 1025, 1026, 1500, 2048, 2049, 4096, 4097], [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8193, 12000]):
        S.append((gen.rand(ctx.rng, n, list(range(256))), [p - 1 for p in positions(ctx.rng, n, 300)], [p - 1 for p in positions(ctx.rng, n, 90)]))
    for i, ((t, w, p), o) in enumerate(zip(S, ctx.lib1([("conjsel@" + ty(i), gen.wide(ty(i), x[0]), *x[1:]) for i, x in enumerate(S)]))):
        if o is not None:
            runs.append({"k": "conjsel", "t": list(t), "count": int_or(o[0]), "full": o[1][0], "which": w, "pos": p, "rows": [gen.unwide(ty(i), x) for x in o[1][1]],
                         "_what": "%d rotations of a random text of length %d" % (o[0], len(t))})
    ctx.validate("TR_Words", runs, kind="ConjugateIterator", **WO)


# ------------------------------------------------------------------ C20, C21
def lines_of(out):
    """lines of a tool's output (lists of bytes), or None if the last one is not ended"""
    if not out:
        return []
    if not out.endswith(b"\n"):
        return None
    return [list(x) for x in out[:-1].split(b"\n")]


def mc_enum(ctx, kind):
    cases = [1000 * m + s for s, hi in ctx.pick([(1, 5), (2, 7), (3, 4), (4, 3)], [(1, 8), (2, 11), (3, 7), (4, 5), (5, 4), (7, 3)])
             for m in range(1, hi + 1)]
    return ctx.model_check("MC_Enum", {"KIND": '"%s"' % kind, "CASES": "{" + ", ".join(map(str, cases)) + "}"}, want_vectors=True,
                           inv=["Sound", "Ordered", "Complete", "Export"])


def c20(ctx):
    vec = mc_enum(ctx, "lyndon")
    reqs = [("lwg", v["m"], v["sg"], len(v["out"]) + 5) for v in vec]
    expect(ctx, reqs, [[v["out"], [True, True]] for v in vec])
    cases, want = [], []
    for i, v in enumerate(vec):
        o = ctx.file() if i % 2 else None
        cases.append({"prog": "lyndonwords", "args": ["-l", v["m"], "-s", v["sg"]] + (["-o", o] if o else []), "out": o})
        want.append(b"".join(bytes(c + 97 for c in w) + b"\n" for w in v["out"]))
    for c, r, w in zip(cases, ctx.run(cases), want):
        got = r["file"] if c["out"] else r["out"]
        ctx.expect_vector(r["rc"] == 0 and got == w, "lyndonwords %s wrote %s, the specification %s" % (c["args"], show(got), show(w)),
                          case=c)
    # longer words, larger alphabets (a prefix of the sequence), to their very end where that is short
    P = [(0, 2), (0, 1), (1, 1), (2, 1), (9, 1), (100, 1), (300, 1), (1, 2), (1, 26), (1, 27), (1, 255), (1, 256), (2, 26), (2, 30), (2, 60), (3, 12), (2, 256),
         (10, 2), (12, 2), (7, 3), (5, 5), (20, 2), (64, 2), (100, 2), (255, 2), (256, 2), (257, 2), (400, 3), (30, 26), (17, 200), (3, 256)]
    if not ctx.quick:
        P += [(14, 2), (9, 3), (7, 4), (3, 26), (4, 11), (1000, 2), (2, 128), (5, 64)]
    lims = [(1500 if m < 100 else 260) if ctx.quick else (20000 if m < 40 else 1500) for m, s in P]
    P += [(3, 60), (18, 2)]                                     # more than 2^16 words, 2^14 words
    lims += [100000, 20000]
    runs = []
    for (m, s), lim, o in zip(P, lims, ctx.lib1([("lwg", m, s, lim) for (m, s), lim in zip(P, lims)])):
        if o is not None:
            runs.append({"k": "lwg", "m": m, "sg": s, "off": 0, "ev": o[0], "ended": o[1][0], "stays": o[1][1], "limit": lim,
                         "_what": "LyndonWordGenerator(%d, %d)" % (m, s)})
    ctx.validate("TR_Words", runs, kind="LyndonWordGenerator", **WO)
    P = [(5, 2), (10, 2), (11, 2), (12, 2), (6, 3), (7, 3), (2, 26), (1, 26), (1, 100), (2, 40), (4, 4), (1, 1), (50, 1), (3, 10), (20, 2)]
    if not ctx.quick:
        P += [(14, 2), (16, 2), (9, 3), (3, 26), (2, 158)]
    cases = []
    for i, (m, s) in enumerate(P):
        o = ctx.file() if i % 2 else None
        a = ["-l", m, "-s", s] if i % 3 else ["-s", s, "-l", m]
        if (m, s) == (5, 2):
            a = []
        cases.append({"prog": "lyndonwords", "args": a + (["-o", o] if o else []), "out": o})
    runs = []
    for (m, s), c, r in zip(P, cases, ctx.run(cases)):
        ls = lines_of(r["file"] if c["out"] else r["out"]) if r["rc"] == 0 and (not c["out"] or r["file"] is not None) else None
        if ls is None:
            ctx.violation("lyndonwords %s: status %s, output %s" % (c["args"], r["rc"], show(r["out"])), kind="exec", case=c)
            continue
        runs.append({"k": "lwg", "m": m, "sg": s, "off": 97, "ev": ls, "ended": True, "stays": True, "limit": -1,
                     "_what": "lyndonwords %s" % c["args"]})
    ctx.validate("TR_Words", runs, kind="lyndonwords tool", **WO)


def c21(ctx):
    vec = mc_enum(ctx, "all")
    reqs, exp, cases, want = [], [], [], []
    for v in vec:
        if v["sg"] == 2:
            reqs.append(("bsg", v["m"], len(v["out"]) + 5))
            exp.append([[[c + 48 for c in w] for w in v["out"]], [True, True]])
        cases.append({"prog": "enumerate", "args": [v["sg"], v["m"]] + ([v["m"]] if v["m"] % 2 else [])})
        want.append(b"".join(bytes(c + 97 for c in w) + b"\n" for w in v["out"]))
    expect(ctx, reqs, exp)
    for c, r, w in zip(cases, ctx.run(cases), want):
        ctx.expect_vector(r["rc"] == 0 and r["out"] == w, "enumerate %s wrote %s, the specification %s" % (c["args"], show(r["out"]), show(w)), case=c)
    # the binary string generator, complete for small lengths, its first strings for any length
    runs = []
    B = [(n, 2**n + 3) for n in [*range(0, ctx.pick(10, 14)), 17]] + [(n, ctx.pick(70, 300)) for n in (15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 127, 128, 200, 254, 255)]
    for (n, lim), o in zip(B, ctx.lib1([("bsg", n, lim) for n, lim in B])):
        if o is not None:
            runs.append({"k": "bsg", "m": n, "ev": o[0], "ended": o[1][0], "stays": o[1][1], "limit": lim,
                         "_what": "BinaryStringGenerator(%d)" % n})
    ctx.validate("TR_Words", runs, kind="BinaryStringGenerator", **WO)
    # the tool: ranges and refusals
    P = [(1, 1, 1), (1, 1, 9), (1, 40, 41), (2, 1, 8), (2, 3, 9), (3, 1, 6), (4, 2, 4), (5, 1, 3), (25, 1, 2), (26, 1, 2), (26, 1, 1),
         (26, 2, None), (2, 1, None), (7, 3, None), (2, 10, 10), (1, 300, None), (13, 2, 2), (2, 8, 10),
         (2, 17, 17), (10, 5, 5), (3, 9, 10), (1, 300, 600)]
    P += [(0, 1, 2), (27, 1, 1), (27, 1, None), (100, 1, 1), (2, 0, 3), (2, 0, None), (2, 3, 2), (2, 2, 1), (1, 1, 0), (3, 5, 4), (0, 0, 0), (255, 1, 1), (256, 1, 1),
          (257, 1, 1), (258, 1, 1), (2**32 + 2, 1, 1), (2**64 - 1, 1, 1), ("2", "-1", None), ("x", 1, 1), ("", 1, 1), (2, "1.5", 2), (2, 5, 4), (26, 2, 1)]
    if not ctx.quick:
        P += [(2, 1, 14), (3, 1, 9), (26, 1, 3), (10, 1, 4), (4, 7, 7), (1, 1, 200), (5, 6, None)]
    num = lambda x: x if isinstance(x, int) and x < 2**31 else (2**31 - 1 if isinstance(x, int) else -1)
    cases = [{"prog": "enumerate", "args": ["--", *[x for x in p if x is not None]] if any(isinstance(x, str) for x in p)
              else [x for x in p if x is not None]} for p in P]
    runs = []
    for p, c, r in zip(P, cases, ctx.run(cases)):
        ls = lines_of(r["out"])
        if ls is None or r["rc"] not in (0, 1, 2, 101):
            ctx.violation("enumerate %s: status %s, output %s" % (c["args"], r["rc"], show(r["out"])), kind="exec", case=c)
            continue
        runs.append({"k": "enum", "a": num(p[0]), "lo": num(p[1]), "hi": num(p[1] if p[2] is None else p[2]), "ev": ls,
                     "limit": -1, "refused": r["rc"] != 0, "_what": "enumerate %s (status %s)" % (c["args"], r["rc"])})
    # far more strings than can be listed: the reader closes the pipe after some bytes
    P = [(2, n) for n in (15, 16, 17, 20, 24, 30, 31, 32, 33, 40, 62, 63, 64, 65, 66, 100, 127, 128, 129, 256, 300)]
    P += [(3, 20), (3, 21), (3, 40), (3, 41), (4, 8), (4, 16), (4, 31), (4, 32), (4, 64), (5, 14), (8, 21), (8, 22), (16, 4), (16, 8), (16, 16), (16, 32),
          (10, 20), (20, 15), (25, 14), (26, 4), (26, 7), (26, 13), (26, 14), (26, 28), (3, 1000), (26, 300)]
    cases, take = [], []
    for i, (a, n) in enumerate(P):
        k = ctx.pick(40, 400) if n < 200 else 6
        take.append(k)
        cases.append({"prog": "enumerate", "args": [a, n] + ([n + i % 3] if i % 2 else []), "timeout": 10,
                      "env": {"@stdout": "read:%d" % (k * (n + 1))}})
    for (a, n), k, c, r in zip(P, take, cases, ctx.run(cases)):
        ls = [list(x) for x in r["out"][:k * (n + 1)].split(b"\n")[:-1]]
        runs.append({"k": "enum", "a": a, "lo": n, "hi": c["args"][-1], "ev": ls, "limit": k, "refused": False,
                     "_what": "enumerate %s, the first %d lines" % (c["args"], k)})
    ctx.validate("TR_Words", runs, kind="enumerate tool", **WO)
    r = ctx.run([{"prog": "generator_kmer", "args": []}])[0]
    ls = lines_of(r["out"])
    if r["rc"] != 0 or ls is None:
        ctx.violation("generator_kmer: status %s" % r["rc"], kind="exec")
    else:
        ctx.validate("TR_Words", [{"k": "kmer", "lines": ls, "_what": "generator_kmer"}], kind="generator_kmer", **WO)


# ------------------------------------------------------------------ C22, C23, C24
MORPHIC = {"fibonacci": "fibonacci", "tribonacci": "tribonacci", "thue": "thue-morse", "doubling": "period-doubling",
           "vtm": "vtm", "lyndon": "fibonacci-lyndon-factor"}


def positions(rng, n, count):
    """positions 1..n: all if few, otherwise both ends, around powers of two and random ones"""
    if n <= count:
        return list(range(1, n + 1))
    s = set(range(1, 33)) | set(range(n - 31, n + 1))
    x = 1
    while x < n:
        s |= {p for p in (x - 1, x, x + 1, n - x, n + 1 - x) if 1 <= p <= n}
        x *= 2
    while len(s) < count:
        s.add(rng.randrange(1, n + 1))
    return sorted(s)


def word_runs(ctx, kind, plan, length):
    """plan: (name in the specification, name of the tool, k, number of positions)"""
    todo = []
    for name, tool, k, cnt in plan:
        n = length(name, k)
        todo.append((name, tool, k, positions(ctx.rng, n, cnt)))
    out = ctx.lib1([("wordat", tool, k, [p - 1 for p in pos]) for _, tool, k, pos in todo], procs=4)
    return [{"k": kind, "name": name, "n": k, "len": int_or(o[0]), "pos": pos, "chars": o[1], "_what": "%s word %d" % (tool, k)}
            for (name, tool, k, pos), o in zip(todo, out) if o is not None]


def tool_runs(ctx, kind, plan):
    """complete words written by the tool"""
    cases = []
    for i, (name, tool, k) in enumerate(plan):
        o = ctx.file() if i % 2 else None
        a = ["-k", k, "--name" if i % 3 else "-n", tool]
        cases.append({"prog": "word", "args": a + (["-o", o] if o else []), "out": o})
    runs = []
    for (name, tool, k), c, r in zip(plan, cases, ctx.run(cases)):
        w = r["file"] if c["out"] else r["out"]
        if r["rc"] != 0 or w is None or (c["out"] and r["out"]):
            ctx.violation("word %s: status %s, output %s" % (c["args"], r["rc"], show(r["out"])), kind="exec", case=c)
            continue
        runs.append({"k": kind, "name": name, "n": k, "len": len(w), "pos": list(range(1, len(w) + 1)), "chars": list(w),
                     "t": list(w), "_what": "word %s" % c["args"]})
    return runs


def mor_len(name, k):
    """only used to choose positions"""
    m = {"fibonacci": (b"ab", b"a", b""), "tribonacci": (b"ab", b"ac", b"a"), "thue": (b"ab", b"ba", b""), "doubling": (b"ab", b"aa", b""),
         "vtm": (b"abc", b"ac", b"b"), "lyndon": (b"aab", b"ab", b"")}[name]
    v = [1, 1, 1]
    for _ in range(k):
        v = [sum(v[c - 97] for c in x) for x in m]
    return v[0] + v[1] if name == "lyndon" else v[0]


def c22(ctx):
    vec = ctx.model_check("MC_Words", {"MAXLEN": ctx.pick(1100, 8200)}, want_vectors=True,
                          inv=["LengthRight", "DescentRight", "PrefixRight", "ThueRight", "DoublingRight", "FibRight", "TribRight",
                               "VtmRight", "LyndonRight", "Export"])
    reqs = [("word", MORPHIC[v["name"]], v["k"]) for v in vec]
    expect(ctx, reqs, [v["w"] for v in vec])
    cases, want = [], []
    for i, v in enumerate(vec):
        o = ctx.file() if i % 2 else None
        cases.append({"prog": "word", "args": ["-k", v["k"], "--name", MORPHIC[v["name"]]] + (["-o", o] if o else []), "out": o})
        want.append(bytes(v["w"]))
    for c, r, w in zip(cases, ctx.run(cases), want):
        got = r["file"] if c["out"] else r["out"]
        ctx.expect_vector(r["rc"] == 0 and got == w, "word %s wrote %s, the specification %s" % (c["args"], show(got), show(w)), case=c)
    # the images themselves
    reqs = [("morph", c) for c in (97, 98, 99)]
    names = ["fibonacci", "tribonacci", "thue", "vtm", "lyndon"]
    for (k, o), c in zip(ctx.lib(reqs), (97, 98, 99)):
        for n, w in zip(names, o if k == "ok" else [None] * 5):
            img = {"fibonacci": {97: b"ab", 98: b"a"}, "tribonacci": {97: b"ab", 98: b"ac", 99: b"a"}, "thue": {97: b"ab", 98: b"ba"},
                   "vtm": {97: b"abc", 98: b"ac", 99: b"b"}, "lyndon": {97: b"aab", 98: b"ab"}}[n]
            if c in img:
                ctx.expect_vector(w == list(img[c]), "%s morphism of %s gave %s" % (n, chr(c), w), got=w)
    # large iterates at sampled positions
    top = ctx.pick({"fibonacci": 33, "tribonacci": 26, "thue": 23, "doubling": 23, "vtm": 22, "lyndon": 16},
                   {"fibonacci": 38, "tribonacci": 29, "thue": 27, "doubling": 27, "vtm": 25, "lyndon": 18})
    plan = [(n, MORPHIC[n], k, ctx.pick(700, 3000)) for n in top for k in range(top[n] + 1) if mor_len(n, k) > 500]
    ctx.validate("TR_Words", word_runs(ctx, "word", plan, mor_len), kind="morphic words", **WO)
    plan = [(n, MORPHIC[n], k) for n in top for k in range(60) if 1000 < mor_len(n, k) <= ctx.pick(90000, 300000)]
    ctx.validate("TR_Words", tool_runs(ctx, "word", plan), kind="word tool", **WO)
    # the number functions, for every k whose number fits
    runs = []
    dig = lambda x: [int(c) for c in str(x)[::-1]] if isinstance(x, int) and x >= 0 else [-1]
    for fn, name, hi in (("fibonacci_number", "fibonacci", 91), ("tribonacci_number", "tribonacci", 72)):
        o = ctx.lib1([(fn, k) for k in range(hi + 1)])
        if None not in o:
            runs.append({"k": "num", "name": name, "ev": [dig(x) for x in o], "_what": fn})
    ctx.validate("TR_Words", runs, kind="number functions", **WO)


RULE = {"fold": "paper-folding", "fold4": "quaternary-paper-folding", "power2": "power2"}


def c23(ctx):
    vec = ctx.model_check("MC_Rules", {"MAXFOLD": ctx.pick(9, 12), "MAXKOL": ctx.pick(14, 18), "MAXDB": 3, "MAXR": 1}, want_vectors=True,
                          inv=["FoldRight", "KolRight", "Export"])
    expect(ctx, [("word", "kolakoski", v["k"]) for v in vec], [v["w"] for v in vec])
    rl = lambda name, k: 2 << k if name == "fold" else 1 << k
    plan = [(n, RULE[n], k, ctx.pick(600, 3000) if k > 10 else 5000) for n in RULE for k in range(ctx.pick(23, 27))]
    ctx.validate("TR_Words", word_runs(ctx, "rule", plan, rl), kind="words given by a rule", **WO)
    plan = [(n, RULE[n], k) for n in RULE for k in list(range(13)) + ctx.pick([17], [13, 14, 15, 16, 17, 19])]
    ctx.validate("TR_Words", tool_runs(ctx, "rule", plan), kind="word tool", **WO)
    # Kolakoski words: every word against the preceding one
    top = ctx.pick(21, 25)
    o = ctx.lib1([("word", "kolakoski", k) for k in range(top + 1)], procs=4)
    tool = ctx.run([{"prog": "word", "args": ["-k", k, "-n", "kolakoski"]} for k in range(top + 1)], threads=4)
    runs = []
    for src, ws in (("library", o), ("tool", [list(r["out"]) if r["rc"] == 0 else None for r in tool])):
        for k, w in enumerate(ws):
            if w is None or (k and ws[k-1] is None):
                ctx.violation("%s: no Kolakoski word %d" % (src, k), kind="lib")
                continue
            runs.append({"k": "kol", "t": w, "ev": ws[k-1] if k else [], "_what": "Kolakoski word %d (%s)" % (k, src)})
    ctx.validate("TR_Words", runs, kind="Kolakoski words", **WO)


def c24(ctx):
    ctx.model_check("MC_Rules", {"MAXFOLD": 1, "MAXKOL": 1, "MAXDB": ctx.pick(8, 12), "MAXR": 1}, inv=["DbRight", "DbEarly"])
    vec = mc_border(ctx)
    reqs, exp = [], []
    for i, v in enumerate(vec):
        t = [TYPES[i % 2][1](c) for c in v["t"]]
        reqs += [("necklace", t), ("necklace_deque", t), ("necklace_prefix", t + [97 * (i % 2)] * (i % 4), len(t))]
        exp += [v["pre"]] * 3
    expect(ctx, reqs, exp)
    runs = []
    top = ctx.pick(18, 19)
    o = ctx.lib1([("word", "binary-de-brujin", k) for k in range(top)])
    tool = ctx.run([{"prog": "word", "args": ["-k", k, "-n", "binary-de-brujin"]} for k in range(top)])
    for src, ws in (("library", o), ("tool", [list(r["out"]) if r["rc"] == 0 else None for r in tool])):
        for k, w in enumerate(ws):
            if w is None:
                ctx.violation("%s: no de Bruijn word %d" % (src, k), kind="lib")
                continue
            runs.append({"k": "db", "n": k, "t": w, "_what": "de Bruijn word %d (%s)" % (k, src)})
    ctx.validate("TR_Words", runs, kind="binary de Bruijn words", **WO)
    # necklace test on long strings: prefixes of powers of Lyndon words, with and without a change
    rng = ctx.rng
    T = long_texts(ctx, 4097)
    for _ in range(ctx.pick(400, 2000)):
        al = rng.choice([b"ab", b"abc", bytes([0, 1]), bytes([254, 255]), bytes([127, 128]), bytes(range(256))])
        u = gen.rand(rng, rng.choice([1, 2, 3, 5, 8, 20, 60]), al)
        r = min(range(len(u)), key=lambda i: u[i:] + u[:i])
        u = u[r:] + u[:r]
        n = rng.choice([1, 2, 5, 30, 100, 256, 300])
        x = bytearray((u * (n // len(u) + 2))[:n])
        T.append(bytes(x))
        p = rng.choice([n - 1, rng.randrange(n)])
        x[p] = rng.choice(al)
        T.append(bytes(x))
        if x[p] < 255:
            x[p] += 1
            T.append(bytes(x))
    for n in (65535, 65536, 65537, 66000, 131080):
        for d in (1, 2, 7, 1009, n):
            u = gen.rand(rng, d, b"abc")
            if d < n:
                r = min(range(len(u)), key=lambda i: u[i:] + u[:i])
                u = u[r:] + u[:r]
            else:
                u = b"aa" + u[:-2]
            x = bytearray((u * (n // len(u) + 1))[:n])
            T.append(bytes(x))
            x[rng.choice([n - 1, rng.randrange(n // 2, n)])] = rng.choice(b"abc")
            T.append(bytes(x))
    T = gen.dedup([t for t in T if t])
    fns = ("necklace", "necklace_deque")
    runs = [{"k": "neckl" if len(t) > 5000 else "neck", "ev" if len(t) > 5000 else "t": list(t), "res": o, "_what": "%s(%s) = %s" % (fns[i % 2], show(t, 100), o)}
            for i, (t, o) in enumerate(zip(T, ctx.lib1([(fns[i % 2], t) for i, t in enumerate(T)]))) if o is not None]
    ctx.validate("TR_Words", runs, kind="is_necklace", **WO)


# ------------------------------------------------------------------ C25
def bits(n):
    return [int(c) for c in bin(n)[:1:-1]] if n else []


def c25(ctx):
    ctx.model_check("MC_Rules", {"MAXFOLD": 1, "MAXKOL": 1, "MAXDB": 1, "MAXR": ctx.pick(2100, 70000)}, inv=["RsgRight"])
    rng = ctx.rng
    P = []
    for b in range(1, 8):
        P += [(0, 0, b, 5), (0, 1, b, 5), (0, 2, b, 5), (0, 3, b, 5), (1, 2, b, 5), (1, 3, b, 5), (3, 7, b, 20), (5, 5, b, 5), (9, 4, b, 5),
              (0, ctx.pick(700, 6000), b, ctx.pick(400, 4000)), (250, 520, b, 50), (65530, 131080, b, 40)]
        for e in (2**14, 2**16, 2**20, 2**21, 2**28, 2**31, 2**32, 2**35, 2**42, 2**48, 2**56, 2**62, 2**63 - 9):
            P += [(e - 4, 2 * e - 1 if 2 * e < 2**63 else 2**63 - 1, b, 12), (e - 4, 2 * e - 2 if 2 * e < 2**63 else 2**63 - 2, b, 12)]
        for _ in range(ctx.pick(12, 60)):
            s = rng.randrange(2**rng.randrange(1, 62))
            P.append((s, rng.choice([2 * s + rng.randrange(1, 20), rng.randrange(2**62)]), b, 15))
    runs = []
    for (s, e, b, lim), o in zip(P, ctx.lib1([("rsg", s, e, b, lim) for s, e, b, lim in P])):
        if o is not None:
            runs.append({"k": "rsg", "lo": bits(s), "hi": bits(e), "b": b, "ev": o[0], "ended": o[1][0], "stays": o[1][1], "limit": lim,
                         "_what": "RandomStringGenerator(%d..%d, %d)" % (s, e, b)})
    ctx.validate("TR_Words", runs, kind="RandomStringGenerator", **WO)
    # the tool is random: every run is a new behaviour
    cases, par = [], []
    for i in range(ctx.pick(260, 1500)):
        n = rng.choice([None, 0, 1, 2, 3, 10, 61, 62, 63, 64, 100, 255, 256, 257, 1000, 1024, 5000] if i % 8 else [4096, 8191, 8192, 8193, 20000]
                       if i % 32 else [65535, 65536, 65537, 70000, 140000])
        s = rng.choice([0, 1, 1, 2, 3, 4, 10, 26, 61, 62, 63, 64, 255, 256, 257, 1000, 2**32, 2**64 - 1])
        o = ctx.file() if i % 2 else None
        a = [["-a", s]] + ([["-p", n]] if n is not None else []) + ([["-o", o]] if o else [])
        rng.shuffle(a)
        cases.append({"prog": "randomstring", "args": [y for x in a for y in x], "out": o})
        par.append((10 if n is None else n, min(s, 10**9)))
    runs = []
    for (n, s), c, r in zip(par, cases, ctx.run(cases)):
        w = r["file"] if c["out"] else r["out"]
        if r["rc"] != 0 or w is None or (c["out"] and r["out"]):
            ctx.violation("randomstring %s: status %s" % (c["args"], r["rc"]), kind="exec", case=c)
            continue
        runs.append({"k": "rand", "len": n, "sigma": s, "out": list(w), "_what": "randomstring %s wrote %s" % (c["args"], show(w, 100))})
    ctx.validate("TR_Words", runs, kind="randomstring tool", **WO)


REGISTRY = {"C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25}
