"""C13 (escaping), C14 (run-length encoding), C15 (move-to-front)"""
import json
from . import gen
from .core import *
from .c_suffix import TR


def io_variant(ctx, i, t, args):
    """the same input from different sources, to different sinks; returns a case"""
    v = i % 6
    c = {"args": list(args), "stdin": None}
    if v in (1, 2, 4):
        c["args"] += [("-i", "--infilename")[i % 2], ctx.write(t)]
    elif v == 5:
        c["stdin"] = "@" + ctx.write(t)
    else:
        c["stdin"] = bytes(t)
    if v in (2, 3):
        c["out"] = ctx.file()
        c["args"] = ["-o", c["out"]] + c["args"]
    return c


def written(c, r):
    return (r["file"] if r["file"] is not None else b"") if c.get("out") else r["out"]


def runs_of(t):
    ev = []
    for b in t:
        if ev and ev[-1][0] == b:
            ev[-1][1] += 1
        else:
            ev.append([b, 1])
    return ev


def esc_args(e, f, t, i=0):
    a = []
    if e or i % 3:
        a += [("-e", "--escape-symbol")[i % 2], str(e)]
    for o, l, x in (("-f", "--from-symbols", f), ("-t", "--to-symbols", t)):
        if x:
            if i % 4 == 3 and len(x) > 1:
                a += [o, ",".join(map(str, x[:1])), o, ",".join(map(str, x[1:]))]
            else:
                a += [(o, l)[i % 2], ",".join(map(str, x))]
    return a


def c13(ctx):
    vec = []
    for a, n, l in ctx.pick([(3, 4, 1), (4, 3, 1), (5, 1, 2)], [(3, 6, 1), (4, 4, 1), (5, 3, 2)]):
        vec += ctx.model_check("MC_Escape", {"A": a, "MAXN": n, "MAXL": l}, want_vectors=True, timeout=1500,
                               inv=["Safe", "Lossless", "NeverBad", "Canonical", "Export"])
    alt = {}
    for v in vec:
        alt.setdefault(json.dumps([v["e"], v["from"], v["to"], v["t"]]), []).append(v["esc"])
    rng = ctx.rng
    if len(vec) > ctx.pick(5000, 40000):
        acc = [v for v in vec if v["ok"]]
        rej = [v for v in vec if not v["ok"]]
        vec = rng.sample(acc, min(len(acc), ctx.pick(4000, 36000))) + rng.sample(rej, min(len(rej), ctx.pick(1200, 5000)))
    cases, meta = [], []
    for i, v in enumerate(vec):
        f = (lambda c: c, lambda c: 255 - c, lambda c: (0, 1, 127, 128, 255)[c], lambda c: (10, 13, 0, 255, 9)[c])[i % 4]
        m = lambda x: [f(c) for c in x]
        a = esc_args(f(v["e"]), m(v["from"]), m(v["to"]), i)
        t = bytes(m(v["t"]))
        cases.append({"prog": "escape", "args": a, "stdin": t})
        meta.append((v["ok"], [bytes(m(x)) for x in alt[json.dumps([v["e"], v["from"], v["to"], v["t"]])]], True, v))
        if v["ok"]:
            cases.append({"prog": "escape", "args": a + ["--is-reversion"], "stdin": bytes(m(v["esc"]))})
            meta.append((True, [t], True, v))
            cases.append({"prog": "escape", "args": ["--is-reversion"] + a, "stdin": t})
            meta.append((v["rawok"], [bytes(m(v["raw"]))], False, v))
    for c, (ok, want, whole, v), r in zip(cases, meta, ctx.run(cases)):
        good = (r["rc"] == 0 and r["out"] in want) if ok else (r["rc"] not in (0, "timeout") and want[0].startswith(r["out"]))
        ctx.expect_vector(good, "escape %s on %s: status %s, output %s, the specification %s %s" % (
            c["args"], show(c["stdin"]), r["rc"], show(r["out"]), "accepts with" if ok else "fails after at most", show(want)), case=c)
    # recorded runs over all byte values
    T = gen.mix(rng, ctx.pick(150, 600), ctx.pick(120, 500), ctx.pick(8, 50), alphas=gen.ALPHAS + gen.FULL)
    T += [b"", bytes(range(256)), bytes(range(255, -1, -1)), b"\0" * 300, b"\xff" * 300, bytes(rng.randrange(256) for _ in range(66000))]

    def choice(t):
        sub = sorted(set(t)) or [0]
        pool = sub if rng.random() < 0.7 else list(range(256))
        e = rng.choice(pool + [0, 255])
        rest = [x for x in range(256) if x != e]
        near = [x for x in sub if x != e]
        k = rng.choice([0, 1, 1, 1, 2, 3, 5, 20, 127])
        f = rng.sample(near if len(near) >= k and rng.random() < 0.7 else rest, k)
        left = [x for x in rest if x not in f]
        nl = [x for x in left if x in sub]
        to = rng.sample(nl if len(nl) >= k and rng.random() < 0.5 else left, k)
        return e, f, to
    cases, meta = [], []

    def add(e, f, to, t, rev):
        i = len(cases)
        c = io_variant(ctx, i, t, esc_args(e, f, to, i) + (["--is-reversion"] if rev else []))
        c["prog"] = "escape"
        cases.append(c)
        meta.append((e, f, to, bytes(t), rev))
    for t in T:
        add(*choice(t), t, False)
    for t in T[:ctx.pick(100, 400)]:                       # the usual choice of the compute scripts
        add(254, [0, 255], [1, 2], t, False)
        add(255, [0], [1], t, False)
        add(0, [10], [110], t, False)
    # pairs that straddle any block size, and rare symbols far inside
    for n in ctx.pick([512, 1024, 4095, 4096, 4097, 8192, 9000, 66000], [511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 9000, 16384, 32768, 65535, 65536, 65537, 140000]):
        big = n > 20000
        for al in ([254], [0, 254, 255, 7], [0], [255, 7]) if not big else ([0, 254, 255, 7], [0]):
            add(254, [0, 255], [1, 2], bytes(rng.choice(al) for _ in range(n)), False)
            add(254, [0, 255], [1, 2], b"x" + bytes([al[0]]) * n, False)
    for t in gen.far(rng, rare=bytes([0, 255, 254]), marks=(512, 4096, 8192, 65536)):
        add(254, [0, 255], [1, 2], t, False)
        add(rng.choice(b"zac"), [0, 255], [1, 97 if t[0] != 97 else 2], t, False)
    for t in rng.sample(T, min(len(T), ctx.pick(60, 300))):   # refused choices
        e, f, to = choice(t)
        k = rng.randrange(5)
        if k == 0:
            f = f + [x for x in range(256) if x not in f + to + [e]][:1]
        elif k == 1:
            f, to = f + [e], to + [x for x in range(256) if x not in f + to + [e]][:1]
        elif k == 2:
            f, to = f + [x for x in range(256) if x not in f + to + [e]][:1], to + [e]
        elif k == 3 and f:
            f = f + [to[-1]]
            to = to + [x for x in range(256) if x not in f + to + [e]][:1]
        elif to:
            f = f + [x for x in range(256) if x not in f + to + [e]][:1]
            to = to + [rng.choice(to)]
        add(e, f, to, t, rng.random() < 0.3)
    res = list(zip(cases, meta, ctx.run(cases)))
    runs = []
    back = []
    for c, (e, f, to, t, rev), r in res:
        out = written(c, r)
        cfg = {"e": e, "from": f, "to": to}
        d = {"t": list(t), "c": cfg, "ev": list(t), "out": list(out), "_what": "escape %s on %s: status %s, wrote %s" % (
            c["args"], show(t, 100), r["rc"], show(out, 100))}
        if rev:
            d.update(k="un", failed=r["rc"] != 0)
        else:
            d.update(k="esc", refused=r["rc"] != 0)
            if not (r["rc"] == 0):
                d["ev"] = []
            else:
                back.append((e, f, to, out, t))
        runs.append(d)
    # reversion of what was written, and of damaged copies
    cases, meta = [], []
    for e, f, to, x, t in back:
        add(e, f, to, x, True)
        if x:
            y = bytearray(x)
            k = rng.randrange(4)
            p = rng.randrange(len(y))
            q = [z for z in range(len(y)) if y[z] == e]
            if q and rng.random() < 0.7:
                p = rng.choice(q)
            if k == 0:
                del y[p]
            elif k == 1:
                y.insert(p, rng.choice([e, rng.randrange(256)]))
            elif k == 2:
                y = y[:p + 1]
            else:
                y = y + bytes([e])
            add(e, f, to, bytes(y), True)
    for c, (e, f, to, t, rev), r in zip(cases, meta, ctx.run(cases)):
        out = written(c, r)
        runs.append({"k": "un", "t": list(t), "c": {"e": e, "from": f, "to": to}, "ev": list(t), "out": list(out), "failed": r["rc"] != 0,
                     "_what": "escape %s on %s: status %s, wrote %s" % (c["args"], show(t, 100), r["rc"], show(out, 100))})
    ctx.validate("TR_Codec", runs, kind="escaping", **TR("Co"))


def mc_codec(ctx):
    vec = []
    for a, n, cap in ctx.pick([(3, 6, 3), (4, 5, 4), (2, 8, 2)], [(3, 8, 3), (4, 6, 4), (5, 6, 5), (2, 11, 2)]):
        for v in ctx.model_check("MC_Codec", {"A": a, "MAXN": n, "CAP": cap}, want_vectors=True, timeout=1500,
                                 inv=["MtfRight", "MtfBack", "RleBack", "RleShort", "HumExact", "Export"]):
            v["A"], v["cap"] = a, cap
            vec.append(v)
    return vec


def utf8(b):
    return chr(b).encode()


def c14(ctx):
    vec = mc_codec(ctx)
    rng = ctx.rng
    modes = {"rle": [], "rlz": ["--onlyzero"], "hum": ["--human"]}
    cases, meta = [], []
    # behaviours without a split have the same code under the real cap; with splits, blow each byte up
    for i, v in enumerate(vec):
        f = (lambda c: 47 + c, lambda c: (0, 48, 255, 128, 49)[c])[i % 2]          # symbol 1 is the digit zero
        mode = ("rle", "rlz", "hum")[i % 3]
        if max([x[1] for x in v["hum"]] or [0]) > v["cap"] and mode != "hum":
            k = 256 // v["cap"]
            if k * v["cap"] != 256 or len({*v["t"]}) > 1 and mode == "rlz":
                continue
            t = b"".join(bytes([f(c)]) * k for c in v["t"])
            o = v["rle"]
            want = b"".join(bytes([f(o[x]), (o[x + 1] + 1) * k - 1]) for x in range(0, len(o), 2)) if mode == "rle" else None
            if want is None:
                continue
        else:
            t = bytes(f(c) for c in v["t"])
            if mode == "hum":
                want = b"".join(b"(" + utf8(f(b)) + b"," + str(n).encode() + b")" for b, n in v["hum"])
            elif mode == "rle":
                o = v["rle"]
                want = b"".join(bytes([f(o[x]), o[x + 1]]) for x in range(0, len(o), 2))
            else:
                o, want, x = v["rlz"], b"", 0
                while x < len(o):
                    want += bytes([f(o[x])])
                    if o[x] == 1:
                        want += bytes([o[x + 1]])
                        x += 1
                    x += 1
        cases.append({"prog": "rle", "args": modes[mode], "stdin": t})
        meta.append(want)
    for c, want, r in zip(cases, meta, ctx.run(cases)):
        ctx.expect_vector(r["rc"] == 0 and r["out"] == want, "rle %s on %s: status %s, %s, the specification %s" % (
            c["args"], show(c["stdin"]), r["rc"], show(r["out"]), show(want)), case=c)
    # recorded runs
    T = gen.mix(rng, ctx.pick(150, 600), ctx.pick(150, 600), ctx.pick(15, 80), alphas=gen.ALPHAS + gen.FULL + [[48], [48, 49], [0, 48, 255]])
    T += [b"", b"0", b"(", b")", b",", b"(a,3)", b"((,1),,1)"]
    for b in (0, 48, 97, 255, 128):
        for n in (1, 2, 9, 10, 99, 100, 254, 255, 256, 257, 258, 510, 511, 512, 513, 514, 767, 768, 769, 1024, 1025):
            o = rng.choice([47, 49, 48, 0, 255, 256 - b if b else 1]) % 256
            T += [bytes([b]) * n, bytes([b]) * n + bytes([o]), bytes([o]) + bytes([b]) * n, bytes([b]) * n + bytes([o]) + bytes([b]) * rng.choice([1, 255, 256, 257])]
    for n in (65535, 65536, 65537):
        T += [b"0" * n, b"x" * n]
    T += [b"0" * (1 << 16) * 17, b"\0" * ctx.pick(10**6, 10**7)]
    T += gen.far(rng, (512, 4096, 8192, 65536), filler=(b"x", b"wx"), rare=b"0\xff") + gen.far(rng, (1024, 4096, 32768), filler=(b"0", b"0\0"), rare=b"1\xff")
    for n in (4095, 4096, 4097, 8193, 65537):
        T += [gen.rand(rng, n, b"01") + b"0" * (n % 300)]
    for _ in range(ctx.pick(60, 300)):
        t = b""
        for _ in range(rng.randrange(1, 12)):
            t += bytes([rng.choice([48, 48, 49, 0, 255])]) * rng.choice([1, 1, 2, 3, 255, 256, 257, 512])
        T.append(t)
    T = gen.dedup(T)
    runs = []
    for mode, a in modes.items():
        cases = []
        for i, t in enumerate(T):
            c = io_variant(ctx, i, t, a)
            c["prog"] = "rle"
            c["timeout"] = 60
            cases.append(c)
        for t, c, r in zip(T, cases, ctx.run(cases)):
            out = written(c, r)
            if r["rc"] != 0:
                ctx.violation("rle %s on %s: status %s" % (c["args"], show(t, 150), r["rc"]), kind="exec", case=c, stderr=r["err"][:300])
                continue
            if len(t) > 100000 and mode == "rle":
                pass
            d = {"k": mode, "t": list(t), "ev": runs_of(t), "out": list(out), "_what": "rle %s on %s wrote %s" % (c["args"], show(t, 100), show(out, 100))}
            if len(t) > 200000:
                d = None if mode == "rlz" and t[0] != 48 else d
            if d:
                runs.append(d)
    ctx.validate("TR_Codec", runs, kind="run-length encoding", **TR("Co"))


def c15(ctx):
    vec = mc_codec(ctx)
    rng = ctx.rng
    cases, meta = [], []
    for i, v in enumerate(vec):
        cases.append({"prog": "mtf", "args": [], "stdin": bytes(v["t"])})
        meta.append(bytes(v["mtf"]))
    for c, want, r in zip(cases, meta, ctx.run(cases)):
        ctx.expect_vector(r["rc"] == 0 and r["out"] == want, "mtf on %s: status %s, %s, the specification %s" % (
            show(c["stdin"]), r["rc"], show(r["out"]), show(want)), case=c)
    T = gen.mix(rng, ctx.pick(120, 500), ctx.pick(200, 700), ctx.pick(16, 60), alphas=gen.ALPHAS + gen.FULL, maxbig=8193)
    T += [b"", bytes(range(256)), bytes(range(255, -1, -1)), bytes(range(256)) * 2, bytes(range(255, -1, -1)) * 2, b"\xff", b"\xff" * 20, b"\0\xff" * 20,
          bytes(rng.randrange(256) for _ in range(ctx.pick(5000, 30000))), gen.rand(rng, 66000, [0, 255, 128, 7, 97])]
    T += [gen.rand(rng, 66000, list(range(256))), gen.rand(rng, ctx.pick(140000, 400000), b'ab')]
    T += gen.far(rng, filler=(b"a", b"b"), rare=b"\0\xffz", marks=(512, 4096, 8192, 65536))
    for n in range(256):
        T += [bytes([n, n, (n + 1) % 256, n]), bytes([255, n, 254, n])]
    for _ in range(ctx.pick(10, 60)):
        p = rng.sample(range(256), 256)
        T.append(bytes(p) + bytes(rng.choice(p[:3] + p[-3:]) for _ in range(20)))
    T = gen.dedup(T)
    cases = []
    for i, t in enumerate(T):
        c = io_variant(ctx, i, t, [])
        c["prog"] = "mtf"
        cases.append(c)
    runs = []
    for t, c, r in zip(T, cases, ctx.run(cases)):
        out = written(c, r)
        if r["rc"] != 0 or len(out) != len(t):
            ctx.violation("mtf %s on %s: status %s, %d bytes for %d" % (c["args"], show(t, 150), r["rc"], len(out), len(t)), kind="exec", case=c)
            continue
        runs.append({"k": "mtf", "t": list(t), "ev": [list(x) for x in zip(t, out)], "_what": "mtf on %s wrote %s" % (show(t, 100), show(out, 100))})
    ctx.validate("TR_Codec", runs, kind="move-to-front", **TR("Co"))


REGISTRY = {"C13": c13, "C14": c14, "C15": c15}
