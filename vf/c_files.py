"""C31 (a tool needs and changes nothing but its input and its output)"""
import json, os, re, shutil, stat, subprocess, hashlib
from . import gen
from .core import *
from .c_suffix import TR
from .c_cli import TOOLS, NOPREFIX, GENERATORS, META, notime, parse_report, ok_for

NOBODY = 65534
# what surrounds a run and must play no role
ENVS = [{}, {"@unset": "HOME"}, {"LC_ALL": "C"}, {"LC_ALL": "tr_TR.UTF-8", "LANG": "tr_TR.UTF-8"}, {"LC_NUMERIC": "de_DE.UTF-8"}, {"TZ": "Asia/Kathmandu"},
        {"PATH": "/nowhere"}, {"COLUMNS": "10"}, {"TERM": "dumb", "NO_COLOR": "1"}, {"TMPDIR": "/nowhere"}, {"HOME": "/nowhere"}, {"RUST_BACKTRACE": "1"},
        {"RAYON_NUM_THREADS": "1"}, {"OUTFILE": "x", "INFILENAME": "x", "PREFIXLENGTH": "2"}, {"CLICOLOR_FORCE": "1"}, {"DEBUG": "1", "VERBOSE": "1"}]
DECOYS = ["text.bak", "text~", "text.tmp", "text.out", "none", "RESULT", "stdout", "-", "out", "out.txt", "a.out", "tmp", "text.bwt", "text.gz", "log", ".stringology"]


def snapshot(root):
    out = []
    for dp, dns, fns in os.walk(root):
        for n in dns + fns:
            p = os.path.join(dp, n)
            s = os.lstat(p)
            if stat.S_ISLNK(s.st_mode):
                d = "link %s" % os.readlink(p)
            elif stat.S_ISDIR(s.st_mode):
                d = "dir %o %d" % (s.st_mode, s.st_uid)
            elif stat.S_ISREG(s.st_mode):
                with open(p, "rb") as f:
                    d = "file %o %d %d %d %s" % (s.st_mode, s.st_uid, s.st_ino, s.st_mtime_ns, hashlib.sha1(f.read()).hexdigest()[:16])
            else:
                d = "special %o" % s.st_mode
            out.append([os.path.relpath(p, root).encode("utf-8", "surrogateescape").decode("latin-1"), d])
    return sorted(out)


def can_be_nobody(ctx):
    """can a process of an unprivileged user be started here and reach the tools and the scratch folder?"""
    p = os.path.join(ctx.work, "probe")
    with open(p, "w") as f:
        f.write("x")
    try:
        r = subprocess.run(["/bin/sh", "-c", "cat '%s' && test -x '%s/vharness'" % (p, ctx.bindir)], user=NOBODY, group=NOBODY, extra_groups=[],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
        return r.returncode == 0 and r.stdout == b"x"
    except (OSError, ValueError, subprocess.SubprocessError):
        return False


class Trees:
    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0
        self.top = os.path.join(ctx.work, "trees")
        os.makedirs(self.top)
        for p in (ctx.work, self.top):
            os.chmod(p, 0o755)
        self.nobody = can_be_nobody(ctx)


    def new(self, t, old=None, readable=True, writable=True, outname="result", plant=None):
        """a tree with an input, an output folder, a working directory and decoys; plant: further files in it"""
        self.n += 1
        root = os.path.join(self.top, "t%d" % self.n)
        for d in ("in", "w", "c", "tmp", "home"):
            os.makedirs(os.path.join(root, d))
        for d in ("in", "w", "c"):
            for i, n in enumerate(DECOYS):
                if d != "w" or n != outname:
                    with open(os.path.join(root, d, n), "wb") as f:
                        f.write(b"keep %d" % i)
        with open(os.path.join(root, "c", "text"), "wb") as f:
            f.write(b"another text")
        with open(os.path.join(root, "in", "text"), "wb") as f:
            f.write(t)
        if old is not None:
            with open(os.path.join(root, "w", outname), "wb") as f:
                f.write(old)
        for n, d in (plant or {}).items():
            q = os.path.join(root, n)
            if os.path.isdir(q):
                continue
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(d)
        # the past, so that any writing shows
        for dp, dns, fns in os.walk(root):
            for n in fns:
                os.utime(os.path.join(dp, n), (10**9, 10**9))
                os.chmod(os.path.join(dp, n), 0o444)
        os.chmod(os.path.join(root, "in", "text"), 0o444 if readable else 0o400)
        if old is not None:
            os.chmod(os.path.join(root, "w", outname), 0o666 if writable else 0o444)
        for d in ("in", "c"):
            os.chmod(os.path.join(root, d), 0o555)
        os.chmod(os.path.join(root, "w"), 0o777 if writable else 0o555)
        os.chmod(os.path.join(root, "tmp"), 0o777)
        os.chmod(os.path.join(root, "home"), 0o777)
        return root

    def restart(self):
        self.close()
        os.makedirs(self.top)
        os.chmod(self.top, 0o755)

    def close(self):
        for dp, dns, fns in os.walk(self.top):
            os.chmod(dp, 0o755)
        shutil.rmtree(self.top, ignore_errors=True)


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def replay(ctx, T):
    vec = []
    for sig, n, ts in ctx.pick([(2, 2, '{"reverse", "mtf", "escape", "rle", "count_runs"}')], [(2, 3, '{"reverse", "mtf", "escape", "rle", "count_runs"}')]):
        vec += ctx.model_check("MC_Files", {"SIGMA": sig, "MAXN": n, "TOOLSET": ts}, want_vectors=True, spec="Spec", timeout=800,
                               inv=["Untouched", "RightsSuffice", "Result", "Kept", "Export"], props=["Terminates"])
    by = {}
    for v in vec:
        by.setdefault(json.dumps(v["sc"], sort_keys=True), (v["sc"], []))[1].append((v["status"], v["std"], v["out"]))
    scs = list(by.values())
    if not T.nobody:
        scs = [(s, o) for s, o in scs if s["mayRead"] and s["mayWrite"]]
    limit = ctx.pick(900, 4000)
    if len(scs) > limit:
        scs = ctx.rng.sample(scs, limit)
    for k in range(0, len(scs), 300):
        part, cases, roots, before = scs[k:k + 300], [], [], []
        for i, (s, o) in enumerate(part):
            old = None if s["old"] == [-1] else bytes(s["old"])
            root = T.new(bytes(s["t"]), old, s["mayRead"], s["mayWrite"])
            a = [] if s["tool"] != "escape" else ["-e", "0", "-f", "1", "-t", "2"]
            c = {"prog": s["tool"], "stdin": None, "timeout": 30, "env": {"@cwd": root + "/c", "TMPDIR": root + "/tmp", "HOME": root + "/home"}}
            if T.nobody:
                c["env"]["@uid"] = NOBODY
            if s["file"]:
                a = a + ["-i", root + "/in/text"]
            else:
                c["stdin"] = "@" + root + "/in/text"
            if s["named"]:
                a = a + ["-o", root + "/w/result"]
            c["args"] = a
            cases.append(c)
            roots.append(root)
            before.append(snapshot(root))
        for (s, o), c, r, root, b in zip(part, cases, ctx.run(cases), roots, before):
            f = read(root + "/w/result")
            st = 0 if r["rc"] == 0 else 2 if r["rc"] == "timeout" else 1
            a = snapshot(root)
            diff = {x[0] for x in b if x not in a} | {x[0] for x in a if x not in b}
            ctx.expect_vector((st, list(r["out"]), [-1] if f is None else list(f)) in o and diff <= ({"w/result"} if s["named"] else set()),
                              "%s %s in the scenario %s ended with status %s, output %s, output file %s, changed files %s, the specification ends with one of %s" % (
                                  c["prog"], c["args"], show(s), r["rc"], show(r["out"]), show(f), sorted(diff), show(o, 200)), case=c, scenario=s)


def c31(ctx):
    T = Trees(ctx)
    try:
        replay(ctx, T)
        recorded(ctx, T)
    finally:
        T.close()


# values for the environment variables that a tool turns out to look at
VALUES = ["", "0", "1", "2", "3", "7", "64", "true", "yes", "no", "off", "x", "/nowhere", "debug", "-1", "/tmp/../nowhere/x", "../w/other", "result"]
PLANTED = [b"", b"1\n", b"x = 3\n", b"abracadabra", b"\0\xff", b"true"]


# variables that only concern the log and the messages of a panic
USUAL = ("RUST_LOG", "RUST_LOG_STYLE", "RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "RUST_MIN_STACK", "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "TERM", "COLUMNS")


def watcher(ctx):
    """a library that notes the environment variables and the files a command looks at, or None"""
    so = os.path.join(ctx.work, "watch.so")
    try:
        r = subprocess.run(["cc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(VERIF, "harness", "watch.c"), "-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0:
            return so
        e = r.stdout[-300:]
    except OSError as x:
        e = x
    ctx.log("no C compiler, the questions to the environment are not noted: %s" % e)
    return None


def asked(log):
    """(environment variables, file names) in a log of the watcher"""
    e, f = set(), set()
    for ln in (read(log) or b"").decode("utf-8", "surrogateescape").split("\n"):
        k, n = ln[:2], ln[2:]
        if k == "e " and re.fullmatch(r"[A-Za-z_][A-Za-z_0-9]*", n) and not n.startswith("LD_") and n != "VWATCH":
            e.add(n)
        elif k == "f " and n:
            f.add(n)
    return e, f


def looks_at(ctx, T, jobs):
    """Runs the tools with their questions to the environment noted.
    -> tool -> (the environment variables it asks for, the files of its tree it looks at, but its input and output)"""
    so = watcher(ctx)
    if not so:
        return {}
    names = {}
    cases, roots, logs = [], [], []
    for i, (tool, opts, t) in enumerate(jobs):
        root = T.new(t if t is not None else b"", None)
        log = ctx.file(".watch")
        env = {"@cwd": root + "/c", "TMPDIR": root + "/tmp", "HOME": root + "/home", "LD_PRELOAD": so, "VWATCH": log}
        a = [] if t is None or i % 3 == 2 else ["-i", root + "/in/text" if i % 3 else "../in/text"]
        if i % 2 and (tool in ("count_z", "count_lexparse", "lyndonfactorization") or t is None and tool != "enumerate"):
            a += ["-o", root + "/w/result"]
        opts = [str(x) for x in opts]
        cases.append({"prog": tool, "args": (a + opts) if tool == "is_stringattractor" else (opts + a),
                      "stdin": t if t is not None and not a[:1] == ["-i"] else None, "env": env, "timeout": 60})
        roots.append(root)
        logs.append(log)
    ctx.run(cases)
    for c, root, log in zip(cases, roots, logs):
        e, f = names.setdefault(c["prog"], (set(), set()))
        x, y = asked(log)
        e |= x
        for n in y:
            n = os.path.relpath(os.path.normpath(os.path.join(root, "c", n)), root)
            if not n.startswith("..") and n not in ("in/text", "w/result", ".", "c", "in", "w") and len(n) < 200:
                f.add(n)
    T.restart()
    return names


def recorded(ctx, T):
    rng = ctx.rng
    texts = [b"abracadabra", b"mississippi\n", b"ba" * 60, bytes(range(3, 250)), gen.fib(13), gen.rand(rng, 9000, b"acgt"), gen.rand(rng, 70000, b"ab")]
    bad = [b"", b"a\0b", b"\xff\0\xfe\0"]
    runs, cases, meta = [], [], []

    def group(label, anyout=False):
        runs.append({"k": "files", "any": anyout, "ev": [], "_what": label, "_ev": []})
        return len(runs) - 1

    def add(g, tool, opts, t, kind, named, first, j, around=None, plant=None):
        root = T.new(t if t is not None else b"", None if j % 3 == 0 else b"previous content " * 50, plant=plant)
        env = {"@cwd": root + "/c", "TMPDIR": root + "/tmp", "HOME": root + "/home"}
        a, si, name = [], None, "none"
        mode = 0 if first else rng.randrange(4)
        if t is not None:
            if mode == 0:
                name = root + "/in/text"
            elif mode == 1:
                name = "../in/text"
            elif mode == 2:
                si = "@" + root + "/in/text"
            else:
                si = t
            if si is None:
                a = ["-i", name]
        out = "-"
        if named:
            out = "w/result"
            a = a + ["-o", rng.choice([root + "/w/result", "../w/result"])]
        if not first:
            e = rng.choice(ENVS)
            env.update(e)
            if T.nobody and rng.random() < 0.7:
                env["@uid"] = NOBODY
            env.update(around or {})
        c = {"prog": tool, "args": (a + opts) if tool == "is_stringattractor" else (opts + a), "stdin": si, "env": env, "timeout": 60}
        cases.append(c)
        meta.append((g, kind, out, root, name))

    def flush():
        before = [snapshot(m[3]) for m in meta]
        for c, (g, kind, out, root, name), b, r in zip(cases, meta, before, ctx.run(cases)):
            f = read(root + "/w/result")
            a = snapshot(root)
            if kind in ("rep", "fac"):
                p = parse_report(notime(r["out"]))
                got = "unparsable " + r["out"].hex() if p is None else " ".join("%s=%s" % (k, v) for k, v in p if k not in ("file", "input", "time_ms"))
                if kind == "fac" and out != "-":
                    got += "|" + ("none" if f is None else f.hex())
            elif out != "-":
                got = ("none" if f is None else f.hex()) + ("|" + r["out"].hex() if r["out"] else "")
            else:
                got = r["out"].hex()
            if len(got) > 200:
                got = hashlib.sha1(got.encode()).hexdigest()
            x = runs[g]
            # (equal descriptions on both sides are left out)
            bs, as_ = {tuple(q) for q in b}, {tuple(q) for q in a}
            keep = lambda l, o: [q for q in l if tuple(q) not in o or q[0] in ("in/text", "w/result", out)]
            x["ev"].append({"before": keep(b, as_), "after": keep(a, bs), "out": out, "got": got,
                            "rc": r["rc"] if isinstance(r["rc"], int) else -2 if r["rc"] == "timeout" else -1})
            x["_ev"].append("%s in %s: status %s, changed %s, output %s" % (show(c["args"], 120), show({k: v for k, v in c["env"].items() if k not in ("@cwd",)}, 120),
                                                                            r["rc"], sorted({q[0] for q in bs ^ as_}), got[:60]))
        cases.clear()
        meta.clear()
        T.restart()

    short = [b"abracadabra", b"a", b"mississippi\n", b"a\0b"]
    seen = looks_at(ctx, T, [(tool, opts, t) for tool, opts, sopts, kind in TOOLS for t in short]
                    + [(tool, opts, None) for tool, opts in GENERATORS for _ in (0, 1)]
                    + [("randomstring", ["-p", 40], None), ("randomstring", ["-a", 4], None), ("enumerate", [], None)])
    ctx.log("the tools look at %s" % sorted(set().union(*[e | f for e, f in seen.values()])) if seen else "nothing noted")

    def surrounded(g, tool, opts, t, kind, named, most):
        """more runs of the group, with what the tool looks at present and different"""
        e, f = seen.get(tool, ((), ()))
        for n in sorted(e):
            fresh = n not in USUAL
            for v in VALUES if fresh else rng.sample(VALUES, min(most, 2)):
                j = rng.randrange(6)
                add(g, tool, opts, t, kind, named if named is not None else kind == "out" and j % 2 == 1, False, j, around={n: v})
        for n in sorted(f)[:40]:
            for d in rng.sample(PLANTED + [b"" if t is None else t], 4):
                j = rng.randrange(6)
                add(g, tool, opts, t, kind, named if named is not None else kind == "out" and j % 2 == 1, False, j, plant={n: d})

    W = ctx.pick(6, 14)
    for tool, opts, sopts, kind in TOOLS:
        for t in rng.sample(texts[:-1], ctx.pick(2, 5)) + [rng.choice(bad)] + ([texts[-1]] if "-u" not in opts else []):
            if not ok_for(tool, opts, t):
                continue
            for named in ((False, True) if kind == "fac" else (None,)):
                g = group("runs of %s %s on %s%s" % (tool, opts, show(t, 60), {None: "", True: ", factors to a file", False: ""}[named]))
                for j in range(W):
                    add(g, tool, [str(x) for x in opts], t, kind, named if named is not None else kind == "out" and j % 2 == 1, j == 0, j)
                surrounded(g, tool, [str(x) for x in opts], t, kind, named, 1)
        if len(cases) > 300:
            flush()
    for tool, opts in GENERATORS + [("word", ["-k", 16, "-n", "thue-morse"]), ("lyndonwords", ["-l", 9, "-s", 2])]:
        g = group("runs of %s %s" % (tool, opts))
        for j in range(W):
            add(g, tool, [str(x) for x in opts], None, "out", j % 2 == 1, j == 0, j)
        surrounded(g, tool, [str(x) for x in opts], None, "out", None, 2)
    for opts in (["-a", 4, "-p", 40], ["-a", 26], ["-p", 70000]):
        g = group("runs of randomstring %s" % opts, True)
        for j in range(W):
            add(g, "randomstring", [str(x) for x in opts], None, "out", j % 2 == 1, j == 0, j)
        surrounded(g, "randomstring", [str(x) for x in opts], None, "out", None, 2)
    for opts in ([], ["-a", "0"], ["x"]):
        g = group("runs of enumerate %s" % opts)
        for j in range(3):
            add(g, "enumerate", opts, None, "num", False, j == 0, j)
        surrounded(g, "enumerate", opts, None, "num", False, 1)
    # refused options and missing inputs
    for tool, opts, sopts, kind in TOOLS:
        if tool != "is_stringattractor":
            g = group("runs of %s %s with an unknown option" % (tool, opts))
            for j in range(2):
                add(g, tool, [str(x) for x in opts] + ["--no-such-option"], b"abc", "num", False, j == 0, j)
    flush()
    ctx.traces += sum(len(x["ev"]) for x in runs) - len(runs)
    ctx.validate("TR_Files", runs, kind="files around the tools", describe=lambda x: "%s: %s" % (x["_what"], "; ".join(x["_ev"])[:1500]), **TR("Fi"))


REGISTRY = {"C31": c31}
