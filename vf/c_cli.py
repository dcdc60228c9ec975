"""C16 (sources and prefixes), C27 (failing sinks), C28 (reports and redirection), C29 (failing sources)"""
import json, os, re
from . import gen
from .core import *
from .c_suffix import TR

# tool, options, options as the specification sees them; kinds:
#   out = writes its result (to -o or standard output), num = prints a number, rep = prints a RESULT line,
#   fac = RESULT line, factors with -o, sta = status
ESC = ["-e", 254, "-f", "0,255", "-t", "1,2"]
TOOLS = [
    ("bwt", [], [], "out"), ("bwt", ["-n"], ["n"], "out"), ("bwt", ["-u"], ["u"], "out"), ("bwt", ["-u", "-n"], ["u", "n"], "out"),
    ("count_lexparse", [], [], "fac"),
    ("count_r", [], [], "rep"), ("count_r", ["-n"], ["n"], "rep"), ("count_r", ["-u"], ["u"], "rep"), ("count_r", ["-n", "-u"], ["n", "u"], "rep"),
    ("count_runs", [], [], "num"),
    ("count_sigma", [], [], "rep"),
    ("count_z", [], [], "fac"),
    ("entropy", ["-o", 0], ["0"], "rep"), ("entropy", ["-o", 1], ["1"], "rep"), ("entropy", ["-o", 3], ["3"], "rep"),
    ("entropy_kmer", ["-o", 1], ["1"], "rep"), ("entropy_kmer", ["-o", 2], ["2"], "rep"),
    ("escape", [], [], "out"), ("escape", ESC, [], "out"), ("escape", ["--is-reversion"] + ESC, ["r"], "out"),
    ("is_stringattractor", ["-a", 0, 1, 2], [], "sta"),
    ("lyndonfactorization", [], [], "fac"),
    ("mtf", [], [], "out"),
    ("mus", [], [], "rep"),
    ("reverse", [], [], "out"),
    ("rle", [], [], "out"), ("rle", ["--onlyzero"], [], "out"), ("rle", ["--human"], [], "out"),
]
NOPREFIX = ("count_runs", "mtf", "rle")
STREAM = ("escape", "mtf", "rle")
LONG = {"-i": "--infilename", "-o": "--outfilename", "-p": "--prefixlength", "-n": "--no-dollar", "-u": "--use-matrix",
        "-e": "--escape-symbol", "-f": "--from-symbols", "-t": "--to-symbols", "-a": "--attractor"}


def ok_for(tool, opts, t):
    """is the text one this tool is meant for? (the others are left out of the groups)"""
    if tool == "is_stringattractor":
        return len(t) <= 3000
    return True


def parse_report(out):
    """-> (fields as [key, value] lists without values, values, well formed)"""
    s = out.decode("utf-8", "surrogateescape")
    if not s.startswith("RESULT ") or s.count("\n") != 1 or not s.endswith("\n"):
        return None
    f = [x.split("=", 1) for x in re.split(r" +(?=[a-z_]+=)", s[7:-1])]
    if any(len(x) != 2 for x in f):
        return None
    return [[a, b.strip()] for a, b in f]


META = ("file", "input", "length", "time_ms", "algo", "order", "no_dollar", "use_matrix")


def ascii_(s):
    return s.encode("utf-8", "surrogateescape").hex() if any(ord(c) > 126 or c in '"\\' for c in s) else s


def event(tool, kind, c, r, src, p, name, u):
    """one run as the specification sees it; name: what the RESULT line must call the input"""
    enc = (lambda b: bytes(b).hex()) if u == 2 else (lambda b: list(b))
    e = {"src": enc(src), "p": min(p, 10**9), "rc": r["rc"] if isinstance(r["rc"], int) else -2, "name": ascii_(name),
         "rep": [], "val": [], "ff": "-", "out": ""}
    if kind in ("rep", "fac"):
        f = parse_report(r["out"])
        if f is not None:
            e["rep"] = [[k, ascii_(v)] for k, v in f if k != "time_ms"]
            v = [x[1] for x in f if x[0] not in META]
            if tool.startswith("entropy"):
                try:
                    v = [round(1e8 * float(x)) for x in v]
                except (ValueError, OverflowError):
                    v = ["?"]
            e["val"] = v
        else:
            e["val"] = ["unparsable"] if r["out"] else []
            e["rep"] = [["unparsable", "x"]] if r["out"] else []
        if kind == "fac" and c.get("out"):
            e["ff"] = "none" if r["file"] is None else r["file"].hex()
            if r["rc"] != 0:
                e["ff"] = "-"                      # a refused input leaves no factors
    elif c.get("out"):
        # the redirected output; nothing may remain on standard output
        e["out"] = enc(r["file"] or b"")
        if r["out"]:
            e["val"] = ["stdout not empty"]
        elif r["file"] is None and r["rc"] == 0:
            e["val"] = ["no output file"]
    else:
        e["out"] = enc(r["out"])
    if e["out"] == "" and u == 1:
        e["out"] = []
    return e


def fifo(ctx, data, piece):
    p = ctx.file(".fifo")
    os.mkfifo(p)
    return p, {"@fifo": "%s,%d:%s" % (p, piece, bytes(data).hex())}


def source(ctx, kind, data, rng):
    """-> (arguments naming the input, stdin, env, name in the RESULT line)"""
    n = len(data)
    if kind == "file":
        p = ctx.write(data)
        return ["-i", p], None, {}, p
    if kind == "stdin file":
        return [], "@" + ctx.write(data), {}, "none"
    if kind == "stdin rest":
        skip = bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 7, 100])))
        return [], "s%d:%s" % (len(skip), ctx.write(skip + bytes(data))), {}, "none"
    if kind == "pipe":
        return [], bytes(data), {}, "none"
    if kind == "pieces":
        m = rng.choice([1, 2, 3, 7]) if n <= 60 else rng.choice([97, 511, 4096]) if n < 20000 else rng.choice([4095, 4096, 8191, 65535])
        return [], "p%d,%d:%s" % (m, rng.choice([0, 100, 300]), bytes(data).hex()), {}, "none"
    if kind == "fifo":
        p, env = fifo(ctx, data, 0 if n > 300 else rng.choice([0, 1, 5, 50]))
        return ["-i", p], None, env, p
    if kind == "devstdin":
        return ["-i", "/dev/stdin"], bytes(data), {}, "/dev/stdin"
    if kind == "procfd":
        return ["-i", "/proc/self/fd/0"], "@" + ctx.write(data), {}, "/proc/self/fd/0"
    if kind == "symlink":
        p = ctx.write(data)
        os.symlink(p, p + ".lnk")
        return ["-i", p + ".lnk"], None, {}, p + ".lnk"
    raise ToolError(kind)


KINDS = ["file", "stdin file", "pipe", "pieces", "fifo", "stdin rest", "devstdin", "procfd", "symlink"]


def suffixes(rng, t, tool):
    """what may follow the analysed prefix"""
    return [b"", b"a", b"\0", b"\0\0\1", b"\xff" * 3, bytes(t[:7]), bytes(rng.randrange(256) for _ in range(rng.choice([1, 5, 300]))),
            b"\xfe", b"zyx" * 50]


def pair(f, v, i):
    """an option with its value, in one of the accepted spellings"""
    v = str(v)
    return ([f, v], [LONG[f], v], [LONG[f] + "=" + v], [f + v])[i % 4]


class Groups:
    """Collects runs on the same analysed bytes and judges each group."""
    def __init__(self, ctx):
        self.ctx, self.cases, self.meta, self.runs = ctx, [], [], []

    def new(self, tool, opts, sopts, kind, t, u):
        enc = bytes(t).hex() if u == 2 else list(t)
        self.runs.append({"k": "group", "tool": tool, "opts": sopts, "report": kind in ("rep", "fac"), "text": enc, "u": u, "ev": [],
                          "_args": opts, "_what": "", "_ev": []})
        return len(self.runs) - 1

    def add(self, g, kind, case, src, p, name):
        case["prog"] = self.runs[g]["tool"]
        self.cases.append(case)
        self.meta.append((g, kind, src, p, name))

    def judge(self, label):
        for c, (g, kind, src, p, name), r in zip(self.cases, self.meta, self.ctx.run(self.cases)):
            x = self.runs[g]
            x["ev"].append(event(x["tool"], kind, c, r, src, p, name, x["u"]))
            x["_ev"].append("%s %s stdin %s: status %s, output %s" % (x["tool"], show(c["args"], 150), show(c.get("stdin"), 40), r["rc"], show(r["out"][:60], 150)))

        def describe(x):
            return "runs of %s %s on the same %d bytes %s: %s" % (x["tool"], x["_args"], len(x["text"]) // x["u"], show(x["text"], 60), "; ".join(x["_ev"])[:1500])
        self.ctx.traces += len(self.cases) - len(self.runs)
        self.ctx.validate("TR_Cli", self.runs, kind=label, describe=describe, chunk=4000, **TR("Cl"))


def unit(tool, t):
    return 1 if tool in ("reverse", "count_sigma", "count_runs") and len(t) <= 9000 else 2


def mc_cli(ctx, tools=None, replay=True):
    """Model-checks the process model and replays its behaviours in the real tools."""
    vec = []
    for sig, n, p, cap, ts in ctx.pick(
            [(2, 3, 4, 4, '{"reverse", "escape"}'), (2, 3, 0, 6, '{"mtf", "rle"}'), (2, 3, 0, 2, '{"count_runs"}')],
            [(2, 4, 5, 6, '{"reverse", "escape"}'), (3, 4, 0, 6, '{"mtf"}'), (2, 5, 0, 8, '{"rle"}'), (2, 4, 0, 3, '{"count_runs"}')]):
        vec += ctx.model_check("MC_Cli", {"SIGMA": sig, "MAXN": n, "MAXP": p, "MAXCAP": cap, "TOOLSET": ts}, want_vectors=True, timeout=800,
                               inv=["Faithful", "OnlyPrefix", "SinkFails", "SourceFails", "BuffersFirst", "NeverStuck", "Succeeds", "Export"],
                               props=["Terminates"], spec="Spec")
    by = {}
    for v in vec:
        by.setdefault(json.dumps(v["sc"], sort_keys=True), (v["sc"], []))[1].append((v["status"], v["out"]))
    return list(by.values())


def replay_cli(ctx, scs, want):
    """want: scenario -> bool; each scenario must end in one of the specification's final states"""
    rng = ctx.rng
    scs = [(s, o) for s, o in scs if want(s)]
    limit = ctx.pick(2600, 20000)
    if len(scs) > limit:
        scs = rng.sample(scs, limit)
    cases = []
    for i, (s, o) in enumerate(scs):
        t = bytes(s["t"])
        a = [] if s["tool"] != "escape" else ["-e", "0", "-f", "1", "-t", "2"]
        if s["p"]:
            a = (a + ["-p", s["p"]]) if i % 2 else (["-p", s["p"]] + a)
        c = {"prog": s["tool"], "stdin": None, "env": {}, "timeout": 30}
        if s["fail"] >= 0:
            c["stdin"] = "er"[i % 2] + t[:s["fail"]].hex()
        else:
            ia, c["stdin"], env, _ = source(ctx, KINDS[i % 6], t, rng)
            a = a + ia
            c["env"].update(env)
        if s["cap"] >= 0:
            c["env"]["@fsize"] = s["cap"]
            if i % 3 and s["tool"] != "count_runs":
                c["out"] = ctx.file()
                a = a + ["-o", c["out"]]
            else:
                c["env"]["@stdout"] = ctx.file()
        c["args"] = a
        cases.append(c)
    for (s, o), c, r in zip(scs, cases, ctx.run(cases)):
        out = (r["file"] or b"") if c.get("out") else r["out"]
        st = 0 if r["rc"] == 0 else 2 if r["rc"] == "timeout" else 1
        ctx.expect_vector((st, list(out)) in o, "%s %s in the scenario %s ended with status %s and output %s, the specification ends with one of %s" % (
            c["prog"], c["args"], show(s), r["rc"], show(out), show(o, 200)), case=c, scenario=s)


# ------------------------------------------------------------------ C16
def c16(ctx):
    scs = mc_cli(ctx)
    replay_cli(ctx, scs, lambda s: s["fail"] < 0 and s["cap"] < 0)
    rng = ctx.rng
    G = Groups(ctx)
    small = [b"", b"a", b"\0", b"ab", b"abracadabra", b"\xff\xfe\0\1", b"banana\n", "\u00e4\u00f6\u00fc\u20ac".encode(), b"\r\n\r\n", bytes(range(256))]
    small += gen.mix(rng, ctx.pick(14, 60), ctx.pick(8, 40), alphas=gen.ALPHAS + gen.FULL)
    big = []
    for n in ctx.pick([4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 70001],
                      [1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70001, 131072, 131073, 200000, 262145]):
        big.append(gen.rand(rng, n, rng.choice([b"ab", b"abcd", list(range(1, 256)), list(range(256))])))
    U = 2**64 - 1
    for ti, (tool, opts, sopts, kind) in enumerate(TOOLS):
        T = [(t, ctx.pick(9, 14)) for t in (small if ctx.tier != "quick" else rng.sample(small[10:], 9) + small[:10])]
        T += [(t, 3) for t in rng.sample(big, ctx.pick(3, 9))]
        for t, width in T:
            if not ok_for(tool, opts, t) or (len(t) > 9000 and tool in ("count_r", "bwt") and "-u" in opts and len(t) > 70001):
                continue
            g = G.new(tool, opts, sopts, kind, t, unit(tool, t))
            n = len(t)
            plan = [("file", 0, b"")]
            for k in range(width):
                src = rng.choice(KINDS)
                if tool in NOPREFIX:
                    p, suf = 0, b""
                elif n and rng.random() < 0.55:
                    p, suf = n, rng.choice(suffixes(rng, t, tool))
                else:
                    p, suf = rng.choice([0, n, n + 1, n + 2, 2 * n + 5, 65536 + n, 2**31, 2**32, 2**32 + 1, 2**63 - 1, 2**63, U]), b""
                plan.append((src, p, suf))
            for j, (src, p, suf) in enumerate(plan):
                data = t + suf
                ia, si, env, name = source(ctx, src, data, rng)
                pa = pair("-p", p, rng.randrange(4)) if tool not in NOPREFIX and (p or rng.random() < 0.15) else []
                blocks = [opts, ia, pa] if tool != "is_stringattractor" else [ia, pa, opts]
                if tool != "is_stringattractor":
                    rng.shuffle(blocks)
                c = {"args": sum(blocks, []), "stdin": si, "env": env, "timeout": 60}
                if kind in ("out", "fac") and rng.random() < 0.3:
                    c["out"] = ctx.file()
                    c["args"] = c["args"] + ["-o", c["out"]]
                G.add(g, kind, c, data, p, name)
    G.judge("sources and prefixes")


# ------------------------------------------------------------------ C28
NAMES = ["in put", "a=b", "UPPER.txt", "none", "-dash", "..dots..", "caf\u00e9", "\u65e5\u672c", "x" * 200, "star*", "semi;colon", "tab", "q'uote",
         "length", "RESULT", "%s", "{}", "sub/dir/f", "./plain", "sub/../up",
         "x.txt", "x.gz", "x.fa", "x.fasta", "x.bwt", "x.bin", "x.xz", "x.zip", "x.bz2", "x.zst", "x.out", "x.csv", "x.json", "x.log", "x.dat", "x.tar", "x.esc", "x.mtf", "x.rle",
         "stdin", "stdout", "out", "file", "input", "output", "0", "null", ".hidden", "x.", "a\\b", "-", "--", "-i", "-p1", "@x", "~", "~/x", "$HOME", "file://x", "http:", "c:x", "x:1", "x,y"]
LOGS = [None, "off", "error", "warn", "info", "debug", "trace", "stringology=debug", "garbage,,=", ""]


def c28(ctx):
    scs = mc_cli(ctx)
    replay_cli(ctx, scs, lambda s: s["fail"] < 0 and s["cap"] < 0 and s["tool"] != "count_runs")
    rng = ctx.rng
    G = Groups(ctx)
    texts = [b"a", b"ab", b"abracadabra", b"mississippi", b"banana\n", b"aaaaaaaa", b"ba" * 60, "\u00e4\u00f6".encode() * 3, bytes(range(1, 256)),
             b"\xff\xfe\1\2", b"", b"\0", b"a\0b\0", b"a\0"]
    texts += gen.mix(rng, ctx.pick(12, 60), ctx.pick(8, 40))
    # outputs of more than one buffer, for which also old contents are long
    long = [gen.rand(rng, n, list(range(1, 256))) for n in ctx.pick([9000, 66000], [4096, 8192, 9000, 65536, 66000, 150000])]
    d = tempfile.mkdtemp(prefix="names", dir=ctx.work)
    for ti, (tool, opts, sopts, kind) in enumerate(TOOLS):
        for t in rng.sample(texts[14:], ctx.pick(10, 40)) + texts[:14] + (long if kind in ("out", "fac") and "-u" not in opts else []):
            if not ok_for(tool, opts, t):
                continue
            g = G.new(tool, opts, sopts, kind, t, unit(tool, t))
            for j in range(ctx.pick(9, 13) if len(t) < 4000 else 4):
                env = {}
                lg = LOGS[0] if j == 0 else rng.choice(LOGS)
                if lg:
                    env["RUST_LOG"] = lg
                si, ia, name = None, [], "none"
                mode = rng.choice(["stdin", "abs", "name", "name", "name"]) if j else "stdin"
                if mode == "stdin":
                    si = bytes(t)
                else:
                    base = ctx.write(t)
                    if mode == "abs":
                        name = base
                    else:
                        name = rng.choice(NAMES)
                        sub = os.path.join(d, "g%d-%d" % (g, j))
                        os.makedirs(os.path.join(sub, "sub", "dir"))
                        os.makedirs(os.path.dirname(os.path.join(sub, name)), exist_ok=True)
                        os.symlink(base, os.path.join(sub, name))
                        env["@cwd"] = sub
                    ia = pair("-i", name, 2 if name.startswith("-") else rng.randrange(4))
                fl = []
                for x in ([opts] if tool == "is_stringattractor" else split_opts(opts)):
                    if len(x) == 1 and x[0] in LONG and rng.random() < 0.4:
                        x = [LONG[x[0]]]
                    elif len(x) == 2 and x[0] == "-o":
                        x = (x, ["--order", x[1]], ["--order=%s" % x[1]], ["-o%s" % x[1]])[rng.randrange(4)]
                    elif len(x) == 2 and x[0] in LONG and tool != "is_stringattractor":
                        x = pair(x[0], x[1], rng.randrange(4))
                    fl.append(x)
                if tool not in NOPREFIX and rng.random() < 0.3:
                    fl.append(pair("-p", rng.choice([0, len(t) + 1, 10**6]) if t else 0, rng.randrange(4)))
                blocks = [ia] + fl
                if tool == "is_stringattractor":
                    blocks = [ia] + fl[1:] + fl[:1]
                else:
                    rng.shuffle(blocks)
                c = {"args": sum(blocks, []), "stdin": si, "env": env, "timeout": 60}
                if kind in ("out", "fac") and j and rng.random() < 0.6:
                    o = c["out"] = ctx.file()
                    c["args"] = pair("-o", o, rng.randrange(4)) + c["args"]
                    old = rng.choice([None, b"", b"x", b"old content, longer than everything " * (80 if len(t) < 3000 else 6 * len(t) // 36), bytes(t) + b"y"])
                    if old is not None:
                        ctx_write(o, old)
                        c["keep"] = True
                G.add(g, kind, c, t, 0, name)
    # generators: no input, but an output
    gens(ctx, G)
    G.judge("reports and redirection")


def ctx_write(p, data):
    with open(p, "wb") as f:
        f.write(data)


def split_opts(opts):
    out, k = [], 0
    while k < len(opts):
        n = 2 if k + 1 < len(opts) and not re.match("-[a-z-]", str(opts[k + 1])) else 1
        out.append(list(opts[k:k + n]))
        k += n
    return out


GENERATORS = [("word", ["-k", k, "-n", w]) for w, k in
              [("fibonacci", 9), ("fibonacci-lyndon-factor", 6), ("tribonacci", 7), ("kolakoski", 7), ("thue-morse", 8), ("period-doubling", 7), ("paper-folding", 7),
               ("quaternary-paper-folding", 5), ("binary-de-brujin", 5), ("power2", 6), ("vtm", 5), ("fibonacci", 1), ("thue-morse", 0)]]
GENERATORS += [("lyndonwords", ["-l", 4, "-s", 2]), ("lyndonwords", ["-l", 3, "-s", 3])]


def gens(ctx, G):
    rng = ctx.rng
    for tool, opts in GENERATORS:
        g = G.new(tool, opts, [], "out", b"", 2)
        for j in range(8):
            o = split_opts(opts)
            rng.shuffle(o)
            env = {}
            if rng.choice(LOGS) and j:
                env["RUST_LOG"] = rng.choice(LOGS[1:-1])
            c = {"args": sum(o, []), "stdin": None, "env": env}
            if j % 2:
                p = c["out"] = ctx.file()
                c["args"] = c["args"] + pair("-o", p, rng.randrange(4))
                if j % 4 == 1:
                    ctx_write(p, b"previous content " * 1000)
                    c["keep"] = True
            G.add(g, "out", c, b"", 0, "none")


# ------------------------------------------------------------------ C27
def notime(b):
    """without the digits that may differ between two runs: times, and the rounding of sums"""
    return re.sub(rb"entropy=[\d.e-]*", b"entropy=", re.sub(rb"time_ms=\d*", b"time_ms=", b))


def c27(ctx):
    scs = mc_cli(ctx)
    replay_cli(ctx, scs, lambda s: s["fail"] < 0 and s["cap"] >= 0)
    rng = ctx.rng
    jobs = []          # tool, options, stdin, kind
    texts = [b"abracadabra", b"mississippi$", b"\xff\xfe\1\2\3", b"aaaabbbbccccdddd" * 3, gen.rand(rng, 60, b"ab")]
    for tool, opts, sopts, kind in TOOLS:
        for t in rng.sample(texts, ctx.pick(2, 4)):
            jobs.append((tool, opts, t, kind))
    for tool, opts in GENERATORS:
        jobs.append((tool, opts, None, "out"))
    jobs += [("randomstring", ["-a", 4, "-p", 40], None, "ran"), ("randomstring", ["-a", 26], None, "ran"),
             ("enumerate", [], None, "end"), ("enumerate_lexparse", [], None, "end"), ("generator_kmer", [], None, "gen")]
    jobs = [j for j in jobs if j[3] not in ("end", "gen")]
    # the output without failure
    base = ctx.run([dict(prog=t, args=list(o), stdin=s) for t, o, s, k in jobs])
    facs = ctx.run([dict(prog=t, args=list(o) + ["-o", f], stdin=s, out=f) for t, o, s, k in jobs if k == "fac" for f in [ctx.file()]])
    fi = iter(facs)
    runs, cases, meta = [], [], []

    def group(tool, opts, full, label):
        runs.append({"k": "sink", "full": full, "ev": [], "_what": "%s %s, %s" % (tool, opts, label), "_ev": []})
        return len(runs) - 1

    def add(g, case, cap, mn, enough, strip, where):
        cases.append(case)
        meta.append((g, cap, mn, enough, strip, where))
    for (tool, opts, s, kind), b in zip(jobs, base):
        if kind == "sta" and b["rc"] == 2:
            pass
        elif b["rc"] != 0:
            ctx.violation("%s %s on %s: status %s although nothing fails" % (tool, opts, show(s), b["rc"]), kind="exec")
            continue
        strip = kind in ("rep", "fac")
        if kind == "ran":
            # a new word every time: only the status and the number of bytes count
            n = len(b["out"])
            g = group(tool, opts, "00" * n, "standard output")
            for cap in sorted(set([0, 1, 2, n // 2, n - 1, n, n + 1])):
                add(g, dict(prog=tool, args=list(opts), env={"@stdout": ctx.file(), "@fsize": cap}), cap, n, n, "ran", "out")
                o = ctx.file()
                add(g, dict(prog=tool, args=list(opts) + ["-o", o], out=o, env={"@fsize": cap}), cap, n, n, "ran", "file")
            add(g, dict(prog=tool, args=list(opts), env={"@stdout": "/dev/full"}), 0, n, n + 1, "none", "lost")
            add(g, dict(prog=tool, args=list(opts), env={"@stdout": "closed"}), 0, n, n + 1, "none", "lost")
            add(g, dict(prog=tool, args=list(opts) + ["-o", "/dev/full"]), 0, n, n + 1, "none", "lost")
            continue
        full = notime(b["out"]) if strip else b["out"]
        mn = len(full) + (1 if strip else 0)
        enough = mn + (40 if b"entropy=" in full else 12) if strip else mn
        if kind == "sta" and not full:
            continue
        caps = list(range(0, enough + 2)) if enough < ctx.pick(70, 400) else sorted(set(
            list(range(0, 8)) + [rng.randrange(enough) for _ in range(ctx.pick(20, 120))] + list(range(mn - 3, mn)) + [enough, enough + 1]))
        g = group(tool, opts, full.hex(), "standard output")
        for cap in caps:
            add(g, dict(prog=tool, args=list(opts), stdin=s, env={"@stdout": ctx.file(), "@fsize": cap}), cap, mn, enough, strip, "out")
        for sink in ("/dev/full", "closed"):
            add(g, dict(prog=tool, args=list(opts), stdin=s, env={"@stdout": sink}), 0, mn, 10**9, strip, "lost")
        if kind == "out":
            g = group(tool, opts, full.hex(), "output file")
            for cap in caps:
                o = ctx.file()
                add(g, dict(prog=tool, args=list(opts) + ["-o", o], stdin=s, out=o, env={"@fsize": cap}), cap, mn, enough, False, "file")
            for o in ("/dev/full", os.path.join(ctx.work, "nowhere", "x"), ctx.work):
                add(g, dict(prog=tool, args=list(opts) + ["-o", o], stdin=s), 0, mn, 10**9, False, "lost")
        if kind == "fac":
            f = next(fi)
            full = f["file"]
            if f["rc"] != 0 or not full:
                ctx.violation("%s %s -o on %s: status %s, file %s" % (tool, opts, show(s), f["rc"], show(full)), kind="exec")
                continue
            caps = list(range(0, len(full) + 2)) if len(full) < ctx.pick(70, 400) else sorted(set(
                list(range(0, 8)) + [rng.randrange(len(full)) for _ in range(ctx.pick(25, 120))] + list(range(len(full) - 3, len(full) + 2))))
            g = group(tool, opts, full.hex(), "factor file")
            for cap in caps:
                o = ctx.file()
                add(g, dict(prog=tool, args=list(opts) + ["-o", o], stdin=s, out=o, env={"@fsize": cap}), cap, len(full), len(full), False, "file")
            for o in ("/dev/full", os.path.join(ctx.work, "nowhere", "x"), ctx.work):
                add(g, dict(prog=tool, args=list(opts) + ["-o", o], stdin=s), 0, len(full), 10**9, False, "lost")
    # outputs larger than every buffer, on a pipe that is closed early
    for n in ctx.pick([70000, 200000], [5000, 9000, 66000, 70000, 200000, 400000]):
        t = gen.rand(rng, n, list(range(1, 256)))
        for tool, opts, sopts, kind in TOOLS:
            if kind != "out" or "-u" in opts or (tool == "escape" and opts and opts[0] == "--is-reversion"):
                continue
            src = ctx.write(t)
            b = ctx.run([dict(prog=tool, args=list(opts) + ["-i", src])])[0]
            g = group(tool, opts, b["out"].hex(), "standard output of %d bytes" % len(b["out"]))
            m = len(b["out"])
            for k in (0, 1, 100, 4096, 65536 - 1, m - 70000):
                # a pipe holds 65536 bytes: closing it after k bytes loses everything beyond k + 65536
                if k >= 0 and k + 131072 < m:
                    add(g, dict(prog=tool, args=list(opts) + ["-i", src], env={"@stdout": "read:%d" % k}), k, m, 10**9, False, "out")
            for cap in sorted(set([1, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, m // 2, m - 1, m])):
                add(g, dict(prog=tool, args=list(opts) + ["-i", src], env={"@stdout": ctx.file(), "@fsize": cap}), cap, m, m, False, "out")
                o = ctx.file()
                add(g, dict(prog=tool, args=list(opts) + ["-i", src, "-o", o], out=o, env={"@fsize": cap}), cap, m, m, False, "file")
    # factor files larger than every buffer
    for tool, opts, sopts, kind in TOOLS:
        if kind != "fac":
            continue
        for want in ctx.pick([9000, 70000], [5000, 9000, 66000, 70000, 200000]):
            # short factors make long files: distinct symbols first for the parsings, non-increasing runs for Lyndon
            if tool == "lyndonfactorization":
                t = b"".join(bytes([c]) * (want // 60) for c in range(122, 62, -1))
            else:
                t = gen.rand(rng, want // 2, list(range(1, 256)))
            src, o = ctx.write(t), ctx.file()
            b = ctx.run([dict(prog=tool, args=list(opts) + ["-i", src, "-o", o], out=o, timeout=120)])[0]
            if b["rc"] != 0 or not b["file"]:
                ctx.violation("%s %s -o on %d bytes: status %s, file %s" % (tool, opts, len(t), b["rc"], show(b["file"])), kind="exec")
                continue
            m = len(b["file"])
            g = group(tool, opts, b["file"].hex(), "factor file of %d bytes" % m)
            for cap in sorted(set([0, 1, 4095, 4096, 8191, 8192, 8193, 16384, 65535, 65536, m // 2, m - 1, m])):
                if cap <= m:
                    o = ctx.file()
                    add(g, dict(prog=tool, args=list(opts) + ["-i", src, "-o", o], out=o, env={"@fsize": cap}, timeout=120), cap, m, m, False, "file")
    for tool, opts in (("word", ["-k", 20, "-n", "fibonacci"]), ("word", ["-k", 16, "-n", "thue-morse"]), ("lyndonwords", ["-l", 12, "-s", 2]), ("lyndonwords", ["-l", 6, "-s", 4])):
        b = ctx.run([dict(prog=tool, args=opts)])[0]
        m = len(b["out"])
        g = group(tool, opts, b["out"].hex(), "standard output of %d bytes" % m)
        for cap in sorted(set([0, 1, 1023, 1024, 1025, 4096, 8191, 8192, 8193, m // 2, m - 1, m])):
            if cap <= m:
                add(g, dict(prog=tool, args=opts, env={"@stdout": ctx.file(), "@fsize": cap}), cap, m, m, False, "out")
                o = ctx.file()
                add(g, dict(prog=tool, args=opts + ["-o", o], out=o, env={"@fsize": cap}), cap, m, m, False, "file")
    # the programs without options that print many words
    for tool in ("enumerate", "generator_kmer"):
        b = ctx.run([dict(prog=tool, args=[], timeout=20)])[0]
        if b["rc"] == 0 and 0 < len(b["out"]) < 4000000:
            m = len(b["out"])
            g = group(tool, [], b["out"].hex(), "standard output of %d bytes" % m)
            for cap in sorted(set([0, 1, 1023, 1024, 1025, 8192, m // 2, m - 1, m])):
                if cap <= m:
                    add(g, dict(prog=tool, args=[], env={"@stdout": ctx.file(), "@fsize": cap}), cap, m, m, False, "out")
            add(g, dict(prog=tool, args=[], env={"@stdout": "/dev/full"}), 0, m, 10**9, False, "lost")
            add(g, dict(prog=tool, args=[], env={"@stdout": "closed"}), 0, m, 10**9, False, "lost")
    for c, (g, cap, mn, enough, strip, where), r in zip(cases, meta, ctx.run(cases)):
        got = b"" if where == "lost" else (r["file"] or b"") if where == "file" else r["out"]
        if strip == "ran":
            got = b"\0" * len(got)
        elif strip:
            got = notime(got)
        rc = r["rc"] if isinstance(r["rc"], int) else -2 if r["rc"] == "timeout" else -1
        if c["prog"] == "is_stringattractor" and rc == 2 and got.hex() == runs[g]["full"]:
            rc = 0
        runs[g]["ev"].append({"cap": cap, "rc": rc, "got": got.hex(), "min": mn, "enough": enough})
        runs[g]["_ev"].append("cap %d: status %s, %d bytes" % (cap, r["rc"], len(got)))
    ctx.traces += len(cases) - len(runs)
    ctx.validate("TR_Cli", runs, kind="failing sinks", describe=lambda x: "%s: %s" % (x["_what"], "; ".join(x["_ev"])[:700]), **TR("Cl"))


# ------------------------------------------------------------------ C29
def known(pid):
    """identifications listed as unrepaired findings"""
    out = []
    for ln in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) (\S+)", ln)
        if m and m.group(1) == pid:
            out.append((m.group(2), ln.strip()[len("finding: "):]))
    return out


def c29(ctx):
    scs = mc_cli(ctx)
    replay_cli(ctx, scs, lambda s: s["fail"] >= 0 and s["cap"] < 0)
    replay_cli(ctx, scs, lambda s: s["fail"] < 0 and s["cap"] < 0 and len(s["t"]) == 3)
    rng = ctx.rng
    # the reading functions on scripted readers
    S = []
    for t in gen.mix(rng, ctx.pick(60, 400), ctx.pick(40, 200), alphas=gen.ALPHAS + gen.FULL):
        s = list(t)
        for _ in range(rng.randrange(0, 6)):
            s.insert(rng.randrange(len(s) + 1), -1)
        if rng.random() < 0.6:
            s.insert(rng.randrange(len(s) + 1), rng.choice([-2, -4, -rng.randrange(5, 17)]))
        S.append((s, rng.choice([1, 2, 3, 7, 64, 4096])))
    S += [([-1], 1), ([-2], 1), ([-4], 1), ([], 1), ([5, -2], 1), ([0, 0, -4], 2), ([7, -1, -1, -2], 3), ([255, -1], 1)] + [([97, 97, -e, 98, 97], e % 3 + 1) for e in range(5, 17)] + [([-e], 1) for e in range(5, 17)]
    runs = []
    for (s, p), (k, o) in zip(S, ctx.lib([("read_chars", s, p) for s, p in S])):
        runs.append({"k": "chars", "s": s, "got": o[0] if k == "ok" else [], "end": o[1] if k == "ok" else 9,
                     "_what": "read_char on the reader %s in pieces of %d: %s" % (show(s, 120), p, show(o, 120))})
    for (s, p), (k, o) in zip(S, ctx.lib([("runs", s, p) for s, p in S])):
        runs.append({"k": "stream", "s": s, "failed": k != "ok", "n": o if k == "ok" else -1,
                     "_what": "number_of_runs on the reader %s in pieces of %d: %s" % (show(s, 120), p, show(o, 80))})
    ctx.validate("TR_Runs", runs, kind="scripted readers", **TR("Ru"))
    # tools whose source fails after m bytes
    runs, cases, meta = [], [], []
    texts = [b"abracadabra", b"aaabbbbba", b"\xff\1\2\3\xff\xff", b"mississippi\n", gen.rand(rng, 40, b"abcd"), bytes(range(1, 30)), b"\0\0a\0"]
    base, bmeta = [], []
    for tool, opts, sopts, kind in TOOLS:
        for t in rng.sample(texts, ctx.pick(2, 5)):
            runs.append({"k": "fail", "stream": tool in STREAM, "ev": [], "_what": "%s %s on a source of %s" % (tool, opts, show(t)), "_ev": []})
            g = len(runs) - 1
            for m in range(len(t) + 1):
                for src in "er":
                    for p in [0] if tool in NOPREFIX else [0, rng.choice([m, m + 1, max(1, m - 1), len(t) + 5])]:
                        c = dict(prog=tool, args=list(opts), stdin=src + t[:m].hex())
                        if p:
                            c["args"] = (["-p", p] + c["args"]) if tool == "is_stringattractor" else c["args"] + ["-p", p]
                        if kind in ("out", "fac") and rng.random() < 0.25:
                            c["out"] = ctx.file()
                            c["args"] = c["args"] + ["-o", c["out"]]
                        cases.append(c)
                        meta.append((g, kind, m, p, t[:min(m, p) if p else m]))
            for n in range(len(t) + 1):
                base.append(dict(prog=tool, args=list(opts), stdin=t[:n]))
                bmeta.append((tool, tuple(opts), t[:n]))
    # longer than the buffers
    for tool, opts, sopts, kind in TOOLS:
        if kind == "sta" or "-u" in opts:
            continue
        for m in rng.sample([4095, 4096, 4097, 8191, 8192, 8193, 20000, 65536], ctx.pick(2, 6)):
            t = gen.rand(rng, m, b"abcd" if tool != "escape" else list(range(2, 250)))
            runs.append({"k": "fail", "stream": tool in STREAM, "ev": [], "_what": "%s %s on a source that fails after %d bytes" % (tool, opts, m), "_ev": []})
            cases.append(dict(prog=tool, args=list(opts), stdin="r" + t.hex()))
            meta.append((len(runs) - 1, kind, m, 0, t))
            base.append(dict(prog=tool, args=list(opts), stdin=t))
            bmeta.append((tool, tuple(opts), t))
    full = {}
    for k, r in zip(bmeta, ctx.run(base)):
        full[k] = notime(r["out"]).hex()
    for c, (g, kind, m, p, t), r in zip(cases, meta, ctx.run(cases)):
        opts = tuple(next(x for x in [o for tl, o, _, _ in TOOLS if tl == c["prog"]] if all(y in c["args"] for y in x) and runs[g]["_what"].startswith("%s %s on" % (c["prog"], x))))
        out = r["out"]
        if c.get("out") and kind == "out":
            out = (r["file"] or b"") + r["out"]
        elif c.get("out") and r["rc"] != 0:
            out = (r["file"] or b"") + r["out"]
        rc = r["rc"] if isinstance(r["rc"], int) else -2 if r["rc"] == "timeout" else -1
        if kind == "sta" and p and p <= m and rc in (1, 2):
            continue                       # a verdict on the prefix, not a failure
        runs[g]["ev"].append({"m": m, "p": p, "rc": rc, "out": notime(out).hex(), "full": full[c["prog"], opts, t]})
        runs[g]["_ev"].append("%s after %d bytes with %s: status %s, %d bytes written" % (c["stdin"][0], m, c["args"], r["rc"], len(out)))
    # sources that cannot be opened or read at all
    opened = []
    plain = ctx.write(b"abc")
    locked = [("-i", os.path.join(ctx.work, "missing")), ("-i", ctx.work), ("-i", plain + "/x"), ("-i", "/proc/self/mem"), ("-i", ""), ("-i", os.path.join(ctx.work, "y" * 300)),
              ("stdin", ctx.work), ("stdin", "/proc/self/mem")]
    loop = os.path.join(ctx.work, "loop")
    os.symlink(loop, loop)
    locked.append(("-i", loop))
    for tool, opts, sopts, kind in TOOLS:
        runs.append({"k": "fail", "stream": tool in STREAM, "ev": [], "_what": "%s %s on an unreadable source" % (tool, opts), "_ev": []})
        g = len(runs) - 1
        for how, what in locked:
            for p in [0] if tool in NOPREFIX else [0, 3]:
                a = list(opts)
                if how == "-i":
                    a = ["-i", what] + a
                if p:
                    a = ["-p", p] + a
                opened.append((g, dict(prog=tool, args=a, stdin="@" + what if how == "stdin" else None), how, what, p))
    for (g, c, how, what, p), r in zip(opened, ctx.run([x[1] for x in opened])):
        runs[g]["ev"].append({"m": 0, "p": p, "rc": r["rc"] if isinstance(r["rc"], int) else -2, "out": notime(r["out"]).hex(), "full": ""})
        runs[g]["_ev"].append("%s %s: status %s" % (how, what, r["rc"]))
    ctx.traces += len(cases) + len(opened) - len(runs)
    ctx.validate("TR_Cli", runs, kind="failing sources", describe=lambda x: "%s: %s" % (x["_what"], "; ".join(x["_ev"])[:900]), **TR("Cl"))
    # an unreadable standard input (a descriptor opened for writing only)
    listed = dict(known("C29"))
    bad = []
    ts = [(x[0], tuple(x[1])) for x in TOOLS]
    empty = {k: r["out"] for k, r in zip(ts, ctx.run([dict(prog=a, args=list(b), stdin=b"") for a, b in ts]))}
    cs = [(tool, opts, dict(prog=tool, args=list(opts), stdin="w")) for tool, opts, s, k in TOOLS if tool != "is_stringattractor"]
    for (tool, opts, c), r in zip(cs, ctx.run([x[2] for x in cs])):
        if r["rc"] == 0 and notime(r["out"]) != notime(empty[tool, tuple(opts)]):
            ctx.violation("%s %s on a standard input that is open for writing only: success with output %s" % (tool, opts, show(r["out"])), kind="exec", case=c)
        elif r["rc"] == 0:
            bad.append(tool)
    if bad:
        if "stdin-opened-for-writing-only" in listed:
            print("KNOWN-FINDING: " + listed["stdin-opened-for-writing-only"], flush=True)
        else:
            ctx.violation("tools report success on a standard input that is open for writing only: %s" % sorted(set(bad)), kind="exec")
    # slow and fragmented input
    G = Groups(ctx)
    for tool, opts, sopts, kind in TOOLS:
        for t in rng.sample(texts, ctx.pick(2, 4)) + [gen.rand(rng, 9000, b"ab")]:
            if not ok_for(tool, opts, t):
                continue
            g = G.new(tool, opts, sopts, kind, t, unit(tool, t))
            n = len(t)
            G.add(g, kind, dict(args=list(opts), stdin=bytes(t)), t, 0, "none")
            for m in (1, 2, 3, 5, n - 1) if n < 100 else (1000, 4096, n - 1):
                if m > 0:
                    G.add(g, kind, dict(args=list(opts), stdin="p%d,%d:%s" % (m, rng.choice([50, 500, 2000]), t.hex())), t, 0, "none")
    G.judge("fragmented sources")


REGISTRY = {"C16": c16, "C27": c27, "C28": c28, "C29": c29}
