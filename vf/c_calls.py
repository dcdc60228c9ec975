"""C32 (answers depend on the arguments only)"""
import hashlib, json, os, subprocess
from . import gen
from .core import *
from .c_suffix import TR
from .c_files import ENVS, USUAL, VALUES, asked, watcher
from .c_words import bits


def gdesc(d):
    return {"lwg": "lwg:%d:%d" % (d["m"], d["sg"]), "bsg": "bsg:%d" % d["m"], "conj": "conj:%s" % (",".join(map(str, d["t"])) or "-"),
            "rsg": "rsg:%d:%d:%d" % (d.get("_r", (0, 0)) + (d["sg"],))}[d["g"]]


def D(g, m=0, sg=0, t=(), r=(0, 0)):
    return {"g": g, "m": m, "sg": sg, "t": list(t), "lo": bits(r[0]), "hi": bits(r[1]), "_r": r}


def enc(r):
    return "/".join((",".join(map(str, a)) or "-") if isinstance(a, (list, tuple, bytes)) else str(a) for a in r)


def digest(x):
    s = json.dumps(x)
    return s if len(s) < 60 else hashlib.sha1(s.encode()).hexdigest()


def request(ds, steps, calls=(), path="-", contents=()):
    return ("history", ";".join(gdesc(d) for d in ds) or "-", ";".join("%s%d" % s for s in steps) or "-",
            ";".join(enc(c) for c in calls) or "-", path, ";".join(",".join(map(str, c)) or "-" for c in contents) or "-")


def pool(ctx):
    """groups of calls that are alike in every way but their answers: equal lengths, sums, beginnings, ends"""
    rng = ctx.rng
    out = []

    def variants(t):
        t = bytes(t)
        v = [t, t[::-1], t[1:] + t[:1], bytes(sorted(t)), bytes(sorted(t, reverse=True)), t[:-1] + bytes([t[-1] ^ 3]), bytes([t[0] ^ 3]) + t[1:],
             t + t, t[:len(t) // 2], bytes(c ^ 1 for c in t)]
        m = len(t) // 2
        v.append(t[:m] + bytes([t[m] ^ 2]) + t[m + 1:])
        return [x for x in dict.fromkeys(v) if x]
    fs = ["duval", "bbwt", "bwt_naive", "lconj", "primitive", "border", "period", "sa_naive", "psv", "nsv", "conj", "necklace", "necklace_deque", "bwt_sa", "bwt_matrix"]
    for t in [b"abracadabra", b"aabab", b"mississippi", gen.fib(9), gen.rand(rng, 40, b"ab"), gen.rand(rng, 200, b"acgt"), bytes(gen.rand(rng, 300, bytes(range(1, 256))))]:
        vs = variants(t)
        for f in fs:
            if f in ("bwt_sa", "bwt_matrix"):
                us = [x + b"\0" for x in vs]
            else:
                us = vs
            out.append([(f, list(x)) for x in us])
            if f in ("duval", "border", "lconj", "bbwt") and len(t) < 50:
                out.append([(f + "@" + ty, list(x)) for ty in ("u16", "u32", "i64") for x in vs])
        sas = [(x, [p - 1 for p in gen.suffix_array(x)[0]]) for x in vs]
        for ty in ("i32", "u16", "usize"):
            out.append([("inv@" + ty, s) for x, s in sas])
            out.append([("phi@" + ty, s) for x, s in sas])
            out.append([("lcp@" + ty, list(x), s) for x, s in sas])
        out.append([("plcp", list(x), s) for x, s in sas])
        out.append([("isa_lyndon", [s.index(i) for i in range(len(s))]) for x, s in sas])
        out.append([("bwt_from_sa", list(x), s) for x, s in sas])
        out.append([("runs", list(x), p) for x in vs for p in (1, 1000)])
        out.append([("read_chars", list(x) + e, 3) for x in vs for e in ([], [-2], [-1, 97])])
    out.append([("bit_size", n) for n in (0, 1, 2, 3, 7, 8, 255, 256, 65535, 65536, 2**32 - 1, 2**32)])
    for w in ("fibonacci", "fibonacci-lyndon-factor", "tribonacci", "kolakoski", "thue-morse", "period-doubling", "paper-folding", "quaternary-paper-folding",
              "binary-de-brujin", "power2", "vtm"):
        out.append([("word", w, k) for k in range(1, 9)])
        out.append([("wordat", w, k, [0, 1, 5, 100, 600]) for k in (12, 3, 11, 4, 9)])
    # all the words of the same number, and the numbers
    for k in (3, 7):
        out.append([("word", w, k) for w in ("fibonacci", "fibonacci-lyndon-factor", "tribonacci", "kolakoski", "thue-morse", "period-doubling", "paper-folding",
                                             "quaternary-paper-folding", "binary-de-brujin", "power2", "vtm")])
    out.append([("fibonacci_number", k) for k in range(0, 60, 3)] + [("tribonacci_number", k) for k in range(0, 40, 3)])
    out.append([("morph", c) for c in b"abc"] + [("morph", 120)])
    for g in ("lwg", "rsg", "bsg"):
        out.append({"lwg": [("lwg", m, s, 50) for m in (0, 1, 3, 4) for s in (1, 2, 3)], "bsg": [("bsg", m, 70) for m in (0, 1, 5, 6, 7, 70)],
                    "rsg": [("rsg", a, b, k, 30) for a, b in ((0, 9), (5, 100), (7, 3000)) for k in (1, 2, 7)]}[g])
    # refused arguments (the call panics) between accepted ones
    out.append([("bwt_sa", list(b"abc")), ("bwt_sa", list(b"abc\0")), ("bwt_sa", []), ("duval", []), ("duval", list(b"ba")), ("lconj", []), ("lconj", list(b"ba")),
                ("period", []), ("period", list(b"aba")), ("morph", 99), ("word", "vtm", 4)])
    return out


def fresh(ctx, reqs):
    """the answer of each call in a process of its own"""
    out = []
    for x in ctx.run([{"prog": "vharness", "args": ["lib"], "stdin": ("\t".join(enc(r).split("/")) + "\n").encode(), "timeout": 60} for r in reqs]):
        k, _, v = x["out"].decode().rstrip("\n").partition("\t")
        out.append(("ok", json.loads(v)) if k == "ok" else (k or "crash", v))
    return out


def c32(ctx):
    rng = ctx.rng
    # 1. all short histories over two generators and two calls
    vec = []
    for depth, m, per, replay in ctx.pick([(4, 2, '{"period"}', True), (3, 2, '{"period", "lconj"}', True)],
                                          [(5, 2, '{"period"}', False), (4, 2, '{"period"}', True), (4, 2, '{"period", "lconj"}', False), (4, 3, '{"lconj"}', True)]):
        v = ctx.model_check("MC_Calls", {"DEPTH": depth, "MAXM": m, "PERIODS": per}, want_vectors=replay, timeout=800, heap="12g",
                            inv=["Own", "Same"] + ["Export"] * replay)
        vec += v if replay else []
    limit = ctx.pick(60000, 300000)
    if len(vec) > limit:
        vec = rng.sample(vec, limit)
    reqs = [request(v["d"], [(e["o"], e["i"] - 1) for e in v["h"]], [(c["f"], c["t"]) for c in v["c"]]) for v in vec]
    for v, q, (k, o) in zip(vec, reqs, ctx.lib(reqs)):
        exp = [e["x"][1][0] if e["o"] == "c" else e["x"] for e in v["h"]]
        ctx.expect_vector(k == "ok" and o == exp, "the history %s was answered %s, the specification answers %s" % (show(q), show(o), show(exp)), request=q, expected=exp)
    ctx.log("replayed %d of the histories" % len(vec))
    # 2. long histories
    groups = pool(ctx)
    flat = list({enc(r): r for g in groups for r in g}.values())
    ans = dict(zip(map(enc, flat), fresh(ctx, flat)))
    for r in flat:
        if ans[enc(r)][0] == "crash":
            ctx.violation("%s ends the process" % show(r), kind="lib", request=jsonable(r))
    ctx.log("asked %d calls in processes of their own" % len(flat))
    ok = lambda r: ans[enc(r)][0] != "crash"
    anchor = lambda r: digest(ans[enc(r)][1]) if ans[enc(r)][0] == "ok" else "-99"
    groups = [[r for r in g if ok(r)] for g in groups]
    plans = []

    def gens(n):
        c = [D("lwg", rng.randrange(5), rng.randrange(1, 4)), D("bsg", rng.choice([0, 1, 2, 3, 5, 9])), D("conj", t=gen.rand(rng, rng.randrange(1, 9), b"ab")),
             D("rsg", sg=rng.randrange(1, 8), r=(rng.randrange(100), rng.randrange(5000))), D("lwg", 3, 3), D("bsg", 4)]
        return [rng.choice(c) for _ in range(n)]
    for i in range(ctx.pick(300, 1500)):        # generators, many of them alike
        ds = gens(rng.randrange(2, 7))
        steps = [("n" if rng.random() < 0.9 else "r", rng.randrange(len(ds))) for _ in range(rng.choice([40, 120, 300]))]
        plans.append((ds, steps, [], []))
    for g in groups:                            # alike calls
        for i in range(ctx.pick(2, 6)):
            c = rng.sample(g, min(len(g), 12))
            steps = [("c", k) for k in range(len(c))] + [("c", rng.randrange(len(c))) for _ in range(20)]
            rng.shuffle(steps)
            plans.append(([], steps, c, []))
    for i in range(ctx.pick(200, 1000)):        # everything
        c = [rng.choice(g) for g in rng.sample(groups, 10)] + rng.sample(rng.choice(groups), 2)
        ds = gens(3)
        m = rng.randrange(1, 60)        # contents of the same length among them
        p = [gen.rand(rng, m, b"ab") for _ in range(3)] + [b"x" * 9000, b"", b"ab" * 4500]
        steps = []
        for _ in range(60):
            o = rng.choice("nnncccccrpgg")
            steps.append((o, rng.randrange({"n": 3, "r": 3, "c": len(c), "p": 6}[o]) if o != "g" else rng.choice([0, 0, 0, 1, 10, 9000])))
        if steps and any(s[0] == "g" for s in steps):
            steps.insert(0, ("p", rng.randrange(6)))
        plans.append((ds, steps, c, p))
    reqs = [request(ds, st, c, os.path.join(ctx.work, "h%d" % i), p) for i, (ds, st, c, p) in enumerate(plans)]
    runs = []

    def record(i, o, how):
        ds, st, c, p = plans[i]
        k, v = o
        if k != "ok" or len(v) != len(st):
            ctx.violation("%s %s: %s %s" % (show(reqs[i]), how, k, show(v)), kind="lib", request=jsonable(reqs[i]))
            return
        ev = []
        for (s, j), x in zip(st, v):
            if s == "c":
                x = "-99" if x == -99 else digest(x)
            ev.append({"o": s, "i": j + (s != "g"), "x": x})
        if not ds and not p:        # calls change no state: the distinct steps
            ev = list({(e["i"], e["x"]): e for e in ev}.values())
        runs.append({"k": "history", "d": [{a: b for a, b in d.items() if a[0] != "_"} for d in ds], "a": [anchor(r) for r in c], "p": [list(x) for x in p],
                     "ev": ev, "_what": "%s, %s: %s" % (show(reqs[i], 600), how, show([e["x"] for e in ev], 600))})
    for i, o in enumerate(ctx.lib(reqs)):
        record(i, o, "one after another")
    ctx.log("ran %d histories" % len(runs))
    for f in os.listdir(ctx.work):
        if f[0] == "h" and f[1:].isdigit():
            os.remove(os.path.join(ctx.work, f))
    # in other surroundings: with other environment variables, first of all those that are asked for
    part = [i for i, pl in enumerate(plans) if not pl[3] and not pl[0]]
    part = rng.sample(part, min(len(part), 250)) + [i for i, pl in enumerate(plans) if pl[0]][:20]
    data = ("\n".join("\t".join(reqs[i]) for i in part) + "\n").encode()
    so, log = watcher(ctx), ctx.file(".watch")
    envs = rng.sample(ENVS[1:], ctx.pick(5, len(ENVS) - 1))
    if so:
        ctx.run([{"prog": "vharness", "args": ["lib"], "stdin": data, "timeout": 120, "env": {"LD_PRELOAD": so, "VWATCH": log}}])
        names = asked(log)[0]
        ctx.log("the library asks for %s" % sorted(names))
        envs += [{n: v} for n in sorted(names) for v in (VALUES if n not in USUAL else rng.sample(VALUES, 1))]
    for e, r in zip(envs, ctx.run([{"prog": "vharness", "args": ["lib"], "stdin": data, "timeout": 300, "env": e} for e in envs])):
        out = r["out"].decode().split("\n")[:-1]
        if r["rc"] != 0 or len(out) != len(part):
            ctx.violation("library calls with %s end the process (status %s)" % (show(e), r["rc"]), kind="lib", requests=jsonable([reqs[i] for i in part[:20]]))
            continue
        for i, ln in zip(part, out):
            a, b = ln.split("\t", 1)
            record(i, (a, json.loads(b) if a == "ok" else b), "with %s" % show(e))
    ctx.log("ran them in %d surroundings" % len(envs))
    # 3. by several threads at the same time (no files: they would be shared), each in an order of its own
    nt = 8
    idx = [i for i, pl in enumerate(plans) if not pl[3]]
    rng.shuffle(idx)
    size = ctx.pick(60, 100)
    for lo in range(0, min(len(idx), ctx.pick(180, 600)), size):
        part = idx[lo:lo + size]
        for k, o in enumerate(at_once(ctx, "libt", [reqs[i] for i in part], nt, nt)):
            record(part[k % len(part)], o, "with other threads")
    # the threads make alike calls
    for rep in range(ctx.pick(1, 2)):
        new = []
        for g in groups:
            c = rng.sample(g, min(len(g), 8))
            for k in range(nt):
                new.append(len(plans))
                steps = [("c", j) for j in range(len(c))] * ctx.pick(12, 24)
                rng.shuffle(steps)
                plans.append(([], steps, c, []))
                reqs.append(request([], steps, c))
        for i, o in zip(new, at_once(ctx, "libb", [reqs[i] for i in new], nt, 1)):
            record(i, o, "at the same time as alike calls")
    ctx.log("ran them with threads")
    ctx.validate("TR_Calls", runs, kind="histories", chunk=ctx.pick(4000, 2000), timeout=1200, **TR("Ca"))


def at_once(ctx, mode, reqs, nt, times):
    some = jsonable(reqs[:20])
    try:
        p = subprocess.run([os.path.join(ctx.bindir, "vharness"), mode, str(nt)], input=("\n".join("\t".join(r) for r in reqs) + "\n").encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300)
    except subprocess.TimeoutExpired:
        ctx.violation("library calls of %d threads do not return" % nt, kind="lib", requests=some)
        return
    out = p.stdout.decode().split("\n")[:-1]
    if p.returncode != 0 or len(out) != times * len(reqs):
        ctx.violation("library calls of %d threads end the process (status %s)" % (nt, p.returncode), kind="lib", requests=some)
        return
    for ln in out:
        a, b = ln.split("\t", 1)
        yield a, (json.loads(b) if a == "ok" else b)


REGISTRY = {"C32": c32}
