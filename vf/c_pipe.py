"""C30: the escape, BWT, move-to-front, run-length pipeline"""
import json, os, re
from . import gen
from .core import *
from .c_suffix import TR
from .c_lyndon import result_fields, int_or


def sh(x):
    return "'" + str(x).replace("'", "'\\''") + "'"


def escape_py(c, t):
    m = dict(zip(c["from"], c["to"]))
    out = bytearray()
    for b in t:
        if b == c["e"]:
            out += bytes([b, b])
        elif b in m:
            out += bytes([c["e"], m[b]])
        else:
            out.append(b)
    return bytes(out)


def pipeline(ctx, t, c, i, zero=False, last="rle"):
    """a real pipeline of processes; the statuses of all stages go to standard error"""
    rng = ctx.rng
    b = lambda n: os.path.join(ctx.bindir, n)
    a = ["-e", c["e"], "-f", ",".join(map(str, c["from"])), "-t", ",".join(map(str, c["to"]))]
    if i % 3 == 1:
        a = ["--escape-symbol", c["e"]] + sum([["--from-symbols", x] for x in c["from"]], []) + sum([["--to-symbols", x] for x in c["to"]], [])
    stdin = None
    src = i % 4
    if src == 0:
        a += ["-i", ctx.write(t)]
    elif src == 1:
        stdin = "@" + ctx.write(t)
    elif src == 2:
        stdin = bytes(t)
    else:
        stdin = "p%d,%d:%s" % (rng.choice([1, 3, 50, 4096]) if len(t) < 300 else 4096, rng.choice([0, 100]), bytes(t).hex())
    st = [[b("escape")] + a]
    if last == "count_r":
        st.append([b("count_r")] + (["-u"] if i % 2 else []))
    else:
        st += [[b("bwt")] + (["-u"] if i % 5 == 1 else []), [b("mtf")], [b("rle")] + (["--onlyzero"] if zero else [])]
    out = None
    if i % 6 == 2 and last == "rle":
        out = ctx.file()
        st[-1] += ["-o", out]
    script = " | ".join(" ".join(sh(x) for x in s) for s in st) + "; echo \"STATUS ${PIPESTATUS[*]}\" >&2"
    env = {"RUST_LOG": "debug"} if i % 7 == 3 and len(t) < 3000 else {}
    d = {"prog": "/bin/bash", "args": ["-c", script], "stdin": stdin, "timeout": 60, "env": env}
    if out:
        d["out"] = out
    return d


def statuses(r):
    m = re.findall(rb"STATUS ([\d ]+)", r["err"])
    return [int(x) for x in m[-1].split()] if m else [-1]


def c30(ctx):
    vec = []
    for a, n, l, cap in ctx.pick([(3, 3, 1, 2), (4, 3, 1, 3), (5, 2, 2, 3)], [(3, 4, 1, 2), (4, 3, 1, 2), (5, 2, 2, 3), (3, 3, 1, 6)]):
        vec += ctx.model_check("MC_Pipeline", {"A": a, "MAXN": n, "MAXL": l, "CAP": cap}, want_vectors=True, timeout=850, spec="Spec",
                               inv=["NoRefusal", "Lossless", "Deterministic", "Orderly", "Stuck", "Export"], props=["Terminates"])
    vec = [json.loads(x) for x in sorted({json.dumps(v) for v in vec})]
    # (of two safe symbols for one byte either may be written)
    vec = [v for v in vec if len(set(v["c"]["from"])) == len(v["c"]["from"])]
    rng = ctx.rng
    if len(vec) > ctx.pick(700, 6000):
        vec = rng.sample(vec, ctx.pick(700, 6000))
    # the output for a small byte alphabet is the output for all bytes
    cases = [pipeline(ctx, bytes(v["t"]), v["c"], i) for i, v in enumerate(vec)]
    for v, c, r in zip(vec, cases, ctx.run(cases)):
        out = (r["file"] or b"") if c.get("out") else r["out"]
        ctx.expect_vector(r["rc"] == 0 and statuses(r) == [0] * 4 and list(out) == v["out"],
                          "%s on %s: statuses %s, output %s, the specification %s" % (c["args"][1], show(v["t"]), statuses(r), show(list(out)), v["out"]), case=c, vector=v)
    # recorded pipelines
    T = gen.mix(rng, ctx.pick(70, 300), ctx.pick(60, 300), ctx.pick(4, 40), alphas=gen.ALPHAS + gen.FULL, maxbig=2000)
    T += [b"", b"\0", b"\0" * 300, b"\xff" * 600, bytes(range(256)), bytes(range(255, -1, -1)) * 2, b"a" * 255, b"a" * 256, b"a" * 257, b"a" * 258, b"a" * 511, b"a" * 512, b"a" * 513,
          b"\0\1" * 120, b"\1\0" * 120 + b"\0", b"\xfe\0\xff\1\2" * 40, bytes(rng.randrange(256) for _ in range(ctx.pick(1500, 6000)))]
    T += [b"a" * ctx.pick(3000, 9000), b"ab" * 700, gen.fib(14), b"0" * 300, b"0" * 40 + b"1" * 20]
    # longer than any buffer on the way
    T += [gen.rand(rng, 66000, b"acgt"), b"a" * 70000, gen.rand(rng, 33000, b"ab") + b"\0z" + gen.rand(rng, 9000, list(range(256))),
          b"a" * 66000 + gen.fib(12) + b"\0" * 300]
    T = gen.dedup(T)
    jobs = []
    for i, t in enumerate(T):
        k = i % 4
        if k == 0:
            c = {"e": 254, "from": [0], "to": [255]}           # the one of the README
        elif k == 1:
            c = {"e": 255, "from": [0], "to": [1]}
        elif k == 2:
            c = {"e": 254, "from": [0, 255], "to": [1, 2]}
        else:
            pool = [x for x in range(1, 256)]
            near = [x for x in set(t) if x]
            e = rng.choice(near or pool)
            n = rng.choice([1, 2, 5, 40])
            rest = rng.sample([x for x in pool if x != e], min(2 * n, 254))
            if len(near) > 2 and rng.random() < 0.5:
                rest = [x for x in rng.sample(near, min(len(near), 2 * n)) if x != e] + rest
                rest = list(dict.fromkeys(rest))
            f, to = [0] + rest[:n - 1], rest[n:2 * n]
            n = min(len(f), len(to))
            f, to = f[:n], to[:n]
            o = list(range(n))
            rng.shuffle(o)
            c = {"e": e, "from": [f[x] for x in o], "to": [to[x] for x in o]}
        jobs.append((t, c, i % 9 == 4))
    pc = [pipeline(ctx, t, c, i, z) for i, (t, c, z) in enumerate(jobs)]
    rc = [pipeline(ctx, t, c, i, last="count_r") for i, (t, c, z) in enumerate(jobs)]
    runs = []
    for (t, c, z), case, r, q in zip(jobs, pc, ctx.run(pc), ctx.run(rc)):
        out = (r["file"] or b"") if case.get("out") else r["out"]
        u = escape_py(c, t) + b"\0"
        sa, rk = gen.suffix_array(u)
        f = result_fields(q["out"]) or {}
        ok = r["rc"] == 0 and statuses(r) == [0] * 4
        runs.append({"t": list(t), "c": c, "zero": z, "ok": ok, "out": list(out), "u": list(u), "sa": sa, "rk": rk, "b": [u[x - 2] for x in sa],
                     "runs": int_or(f.get("bwt_runs"), -2) if statuses(q) == [0, 0] else -2, "len": int_or(f.get("length"), -2),
                     "ev": [[1, x] for x in out] + [[2, x] for x in u[:-1]],
                     "_what": "%s on %s: statuses %s, output %s; with count_r: %s" % (case["args"][1], show(t, 100), statuses(r), show(out, 120), show(q["out"], 200))})
    ctx.validate("TR_Pipeline", runs, kind="pipelines", **TR("Pi"))


REGISTRY = {"C30": c30}
