"""C33 (a command line is understood as a whole or refused before anything happens)"""
import hashlib, os, re
from . import gen
from .core import *
from .c_suffix import TR
from .c_cli import notime

W64 = 18446744073709551615
IN, OUT, PRE = ("i", "infilename", "text", None, False), ("o", "outfilename", "text", None, False), ("p", "prefixlength", "n64", ["0"], False)
ORD, MAT, NOD = ("o", "order", "n64", ["0"], False), ("u", "use-matrix", "flag", None, False), ("n", "no-dollar", "flag", None, False)
SIG = {
    "bwt": [IN, OUT, PRE, MAT, NOD], "count_r": [IN, PRE, MAT, NOD], "count_z": [IN, OUT, PRE], "count_lexparse": [IN, OUT, PRE],
    "lyndonfactorization": [IN, OUT, PRE], "reverse": [IN, OUT, PRE], "count_runs": [IN], "count_sigma": [IN, PRE], "mus": [IN, PRE],
    "entropy": [IN, PRE, ORD], "entropy_kmer": [IN, PRE, ORD],
    "escape": [IN, OUT, PRE, ("e", "escape-symbol", "n8", ["0"], False), ("f", "from-symbols", "list8", None, False), ("t", "to-symbols", "list8", None, False),
               ("", "is-reversion", "flag", None, False)],
    "is_stringattractor": [IN, PRE, ("a", "attractor", "list64", None, False)],
    "lyndonwords": [OUT, ("l", "", "n64", ["5"], False), ("s", "", "n64", ["2"], False)],
    "mtf": [IN, OUT],
    "randomstring": [OUT, ("a", "alphabet-size", "n64", None, True), ("p", "prefixlength", "n64", ["10"], False)],
    "rle": [IN, OUT, ("", "onlyzero", "flag", None, False), ("", "human", "flag", None, False)],
    "enumerate": [("", "", "pos", None, True), ("", "", "pos", None, True), ("", "", "pos", None, False)],
    "word": [OUT, ("k", "", "n8", None, True), ("n", "name", "word", None, True)],
}
WORDS = ["fibonacci", "fibonacci-lyndon-factor", "tribonacci", "kolakoski", "thue-morse", "period-doubling", "paper-folding",
         "quaternary-paper-folding", "binary-de-brujin", "power2", "vtm"]
# (only to keep the runs short)
SMALL = {"lyndonwords": {"l": 4, "s": 4}, "randomstring": {"p": 300}, "word": {"k": 14}}


class No(Exception):
    pass


def number(x, byte):
    s, b = (x[0], x[1:]) if x[:1] in ("+", "-") else ("", x)
    if not b or any(c not in "0123456789" for c in b) or (s == "-" and not (byte and int(b) == 0)) or int(b) > (255 if byte else W64):
        raise No
    return str(int(b))


def value(t, x):
    if t == "text":
        return [x]
    if t in ("n64", "list64", "pos"):
        return [number(x, False)]
    if t == "n8":
        return [number(x, True)]
    if t == "list8":
        return [number(y, True) for y in x.split(",")]
    if x not in WORDS:
        raise No
    return [x]


def understand(tool, line):
    """the values a line states, to pick the plain line it is compared with (the specification checks them)"""
    sig = SIG[tool]
    v = [[] for _ in sig]
    mode, cur = "open", 0

    def put(k, x, apart):
        if v[k] and not sig[k][2].startswith("list"):
            raise No
        v[k] = v[k] + value(sig[k][2], x)
        return "more" if sig[k][2] == "list64" and apart else "open"

    def flag(k):
        if v[k]:
            raise No
        v[k] = ["true"]

    def operand(w):
        k = next((k for k, o in enumerate(sig) if o[2] == "pos" and not v[k]), None)
        if k is None:
            raise No
        v[k] = value("pos", w)
    try:
        for w in line:
            dashed = len(w) > 1 and w[0] == "-"
            if mode == "rest":
                operand(w)
            if mode == "value":
                if dashed:
                    raise No
                mode = put(cur, w, True)
            elif w == "--":
                mode = "rest"
            elif dashed and w[1] == "-":
                n, eq, x = w[2:].partition("=")
                if n in ("help", "version"):
                    if eq:
                        raise No
                    return "told", None
                k = next((k for k, o in enumerate(sig) if n and o[1] == n), None)
                if k is None:
                    raise No
                mode = "open"
                if sig[k][2] == "flag":
                    if eq:
                        raise No
                    flag(k)
                elif eq:
                    put(k, x, False)
                else:
                    mode, cur = "value", k
            elif dashed:
                mode, x = "open", w[1:]
                while x:
                    c, x = x[0], x[1:]
                    if c in "hV":
                        return "told", None
                    k = next((k for k, o in enumerate(sig) if o[0] == c), None)
                    if k is None:
                        raise No
                    if sig[k][2] == "flag":
                        flag(k)
                    elif not x:
                        mode, cur = "value", k
                    else:
                        put(k, x[1:] if x[0] == "=" else x, False)
                        x = ""
            elif mode == "more":
                mode = put(cur, w, True)
            else:
                operand(w)
        if mode == "value" or any(o[4] and not x for o, x in zip(sig, v)):
            raise No
        if tool == "enumerate":
            v[2] = v[2] or v[1]
            if not (1 <= int(v[0][0]) <= 26 and 1 <= int(v[1][0]) <= int(v[2][0])):
                raise No
    except No:
        return "refused", None
    return "ok", [x or o[3] or [] for o, x in zip(sig, v)]


def plain(tool, v):
    out = []
    for (s, l, t, d, q), xs in zip(SIG[tool], v):
        n = "-" + s if s else "--" + l
        if t == "flag":
            out += [n] if xs else []
        elif t == "pos":
            out += xs
        elif t == "text":
            out += ["--%s=%s" % (l, x) for x in xs]
        else:
            out += sum([[n, x] for x in xs], [])
    return out


def affordable(tool, v):
    if tool == "lyndonwords" and "0" in (v[1][:1] + v[2][:1]):
        return False            # without letters it does not end
    if tool == "enumerate":
        return int(v[2][0]) <= 300 and int(v[0][0]) ** int(v[2][0]) <= 3000
    return all(not x or s not in SMALL.get(tool, {}) or int(x[0]) <= SMALL[tool][s] for (s, l, t, d, q), x in zip(SIG[tool], v))


class Room:
    """runs command lines, each in a directory of its own"""
    FILES = {"f.txt": b"mississippi", "in.txt": b"abracadabra\n", "a b": b"bbaabb", "x=y": b"00110", "-d": b"cab", "other": b"keep"}

    def __init__(self, ctx):
        self.ctx, self.n, self.cache = ctx, 0, {}

    def place(self):
        self.n += 1
        d = os.path.join(self.ctx.work, "r%d" % self.n)
        os.makedirs(d)
        for n, c in self.FILES.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(c)
        return d

    def clear(self, d):
        files = {}
        for n in sorted(os.listdir(d)):
            with open(os.path.join(d, n), "rb") as f:
                files[n] = f.read()
            os.remove(os.path.join(d, n))
        os.rmdir(d)
        return files

    def idle(self, jobs):
        """like run, for lines that should leave all files alone: many share a directory"""
        out = []
        for lo in range(0, len(jobs), 1000):
            part = jobs[lo:lo + 1000]
            d = self.place()
            res = self.ctx.run([{"prog": j[0], "args": j[1], "stdin": b"banana", "env": {"@cwd": d}, "timeout": 30} for j in part])
            if self.clear(d) != self.FILES:
                out += self.run(part)           # one of them did something: which one?
            else:
                out += [(r["rc"] if isinstance(r["rc"], int) else -2 if r["rc"] == "timeout" else -1, r["out"], True, "status %s" % r["rc"]) for r in res]
        return out

    def run(self, jobs):
        """jobs: (tool, line) -> (status, output, were the files left alone, digest of everything)"""
        todo = [i for i, j in enumerate(jobs) if (j[0], tuple(j[1])) not in self.cache]
        dirs = [self.place() for i in todo]
        cases = [{"prog": jobs[i][0], "args": jobs[i][1], "stdin": b"banana", "env": {"@cwd": d}, "timeout": 30} for i, d in zip(todo, dirs)]
        for i, d, r in zip(todo, dirs, self.ctx.run(cases)):
            files = self.clear(d)
            kept = files == self.FILES
            o, tool = notime(r["out"]), jobs[i][0]
            # (the entropy is a sum in no fixed order)
            o = re.sub(rb"(entropy=)(-?\d+\.\d+(?:e-?\d+)?)", lambda m: m.group(1) + b"%.8f" % (float(m.group(2)) + 0.0), o)
            if tool == "randomstring":
                files = {n: len(c) if self.FILES.get(n) != c else c for n, c in files.items()}
            got = repr((r["rc"], len(o) if tool == "randomstring" else o, files))
            self.cache[(tool, tuple(jobs[i][1]))] = (r["rc"] if isinstance(r["rc"], int) else -2 if r["rc"] == "timeout" else -1, r["out"], kept,
                                                     "status %s, %d bytes, %s" % (r["rc"], len(o), hashlib.sha1(got.encode()).hexdigest()[:16]))
        return [self.cache[(j[0], tuple(j[1]))] for j in jobs]

    def each(self, jobs, active):
        """runs the jobs, those that are not active in shared directories"""
        out = [None] * len(jobs)
        for f, ids in ((self.run, [i for i, a in enumerate(active) if a]), (self.idle, [i for i, a in enumerate(active) if not a])):
            for i, r in zip(ids, f([jobs[i] for i in ids])):
                out[i] = r
        return out


def c33(ctx):
    rng = ctx.rng
    room = Room(ctx)
    # 1. all short lines
    vec = []
    some = '{"enumerate", "bwt", "escape", "is_stringattractor", "word", "rle"}'
    every = "{%s}" % ", ".join('"%s"' % x for x in SIG)
    near = []
    for ts, n, mode in ctx.pick([(every, 1, "names"), (every, 2, "rich"), (some, 3, "few")],
                                [(every, 1, "names"), (every, 2, "rich"), (every, 3, "few"), ('{"enumerate", "escape", "bwt", "is_stringattractor"}', 3, "rich")]):
        v = ctx.model_check("MC_Args", {"TOOLSET": ts, "MAXLEN": n, "MODE": '"%s"' % mode}, want_vectors=True, timeout=1200,
                            inv=["Whole", "Stated", "Values", "AnyOrder", "NoOperands", "Export"])
        if mode == "names":
            near = v
        else:
            vec += v
    vec = list({(v["tool"], tuple(v["line"])): v for v in vec}.values())
    short, rest = near + [v for v in vec if len(v["line"]) <= 1], [v for v in vec if len(v["line"]) > 1]
    told = [v for v in rest if v["said"] == "ok"]
    most = ctx.pick(2500, 25000)
    vec = short + rng.sample(told, min(len(told), most)) + rng.sample(rest, min(len(rest), most))
    vec = [v for v in vec if v["said"] != "ok" or affordable(v["tool"], v["v"])]
    res = room.each([(v["tool"], v["line"]) for v in vec], [v["said"] == "ok" for v in vec])
    base = room.run([(v["tool"], v["plain"]) for v in vec if v["said"] == "ok"])
    bi = iter(base)
    for v, (rc, out, kept, got) in zip(vec, res):
        if v["said"] == "ok":
            want = next(bi)[3]
            ctx.expect_vector(got == want, "%s %s: %s, but the same values stated plainly (%s): %s" % (v["tool"], v["line"], got, v["plain"], want),
                              tool=v["tool"], line=v["line"])
        elif v["said"] == "refused":
            ctx.expect_vector(rc not in (0, -1, -2) and not out and kept, "%s %s is to be refused: status %s, output %s%s" % (
                v["tool"], v["line"], rc, show(out, 60), "" if kept else ", files were changed"), tool=v["tool"], line=v["line"])
        else:
            ctx.expect_vector(rc == 0 and out and kept, "%s %s asks for help: status %s, output %s%s" % (
                v["tool"], v["line"], rc, show(out, 60), "" if kept else ", files were changed"), tool=v["tool"], line=v["line"])
    ctx.log("replayed %d lines" % len(vec))
    # 2. long lines, many of them spoilt at one place
    POOL = {"text": ["f.txt", "in.txt", "new.txt", "a b", "x=y", "-d", "", "nowhere/x", "-", "=z", "f.txt", "in.txt"],
            "n64": ["0", "1", "2", "3", "3", "4", "007", "+4", "11", str(W64), str(W64 + 1), "9" * 20, "", "x", "1.5", "0x1", " 3", "3 ", "-1", "-0", "1e2", "1,2", "--1"],
            "n8": ["0", "1", "2", "97", "98", "255", "256", "+9", "-0", "300", "", "x", "65537", "1,2", "007"],
            "list8": ["97", "98", "97,98", "110,98", "1,2", "255", "1,2,3,4", "97,", ",", "", "256", "1,,2", "a", "0", "-0", "+1,002"],
            "list64": ["0", "1", "2", "3", "4", "5", "8", "10", str(W64), str(W64 + 1), "x", "", "1,2", "+2"],
            "word": WORDS + ["Fibonacci", "fib", "", "power-2", "FIBONACCI", "vtm "]}
    good = lambda t, x: understand_value(t, x)

    def understand_value(t, x):
        try:
            value(t, x)
            return True
        except No:
            return False

    def one(tool):
        sig, blocks = SIG[tool], []
        flags = ""
        bad = rng.random() < 0.15
        for s, l, t, d, q in sig:
            if not q and rng.random() < 0.45:
                continue
            if t == "pos":
                blocks.append([rng.choice(POOL["n64"] + ["26", "27", "5", "6"] if bad else ["1", "2", "3", "3", "007", "+4", "5", "26", "1"])])
                continue
            if t == "flag":
                if s and rng.random() < 0.5:
                    flags += s
                else:
                    blocks.append(["-" + s if s and rng.random() < 0.5 else "--" + l])
                continue
            for rep in range(rng.choice([1, 1, 2]) if t.startswith("list") else 1):
                x = rng.choice(POOL[t] if bad else [x for x in POOL[t] if good(t, x)])
                ways = ([["-" + s, x], ["-" + s, x], ["-" + s + x], ["-" + s + "=" + x]] if s else []) + ([["--" + l, x], ["--" + l + "=" + x]] if l else [])
                if not x or x[0] in "-=":
                    ways = [w for w in ways if len(w) == 1 and "=" in w[0][:len(l) + 3]] or ways
                    if x[:1] in "-" and x != "" and not bad:
                        ways = [w for w in ways if len(w) == 1]
                w = list(rng.choice(ways))
                if t == "list64" and len(w) == 2:
                    w += [rng.choice(["0", "1", "2", "5"]) for _ in range(rng.randrange(4))]
                if s and flags and len(w[0]) > 1 and w[0][1] != "-" and rng.random() < 0.6:
                    w[0] = "-" + flags + w[0][1:]
                    flags = ""
                blocks.append(w)
        if flags:
            blocks.append(["-" + flags])
        rng.shuffle(blocks)
        line = sum(blocks, [])
        if rng.random() < 0.1:
            line.append("--")
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.randrange(len(line) + 1)
                names = ["-" + o[0] for o in sig if o[0]] + ["--" + o[1] for o in sig if o[1]] or ["-a", "--max_len"]
                m = rng.randrange(9)
                if m == 0 and line:
                    del line[k % len(line)]
                elif m == 1 and line:
                    line.insert(k, rng.choice(line))
                elif m == 2:
                    line.insert(k, rng.choice(["x", "", "-", "--", "5", "-x", "--x", "-5", "f.txt", "--help=1", "---", "--=1", "-=", "-h", "--help", "-V", "--version", "help"]))
                elif m == 3 and line:
                    w, eq, x = line[k % len(line)].partition("=")
                    line[k % len(line)] = w[:-1] if rng.random() < 0.3 else w[:rng.randrange(len(w) + 1)] + eq + x         # an abbreviation
                elif m == 4 and line:
                    line[k % len(line)] = line[k % len(line)].upper()
                elif m == 5:
                    line.insert(k, rng.choice(names))
                elif m == 6 and line:
                    line[k % len(line)] += rng.choice(["x", "=", "=1", "0", "s"])
                elif m == 7:
                    line.insert(k, rng.choice(names) + rng.choice(["=", "=x", "=true", "=1"]))
                elif line:
                    line[k % len(line)] = line[k % len(line)].replace("-", "_", 1) if rng.random() < 0.5 else line[k % len(line)][1:]
        return line
    runs, jobs = [], []
    for tool in SIG:
        lines, tries = {}, 0
        while len(lines) < ctx.pick(130, 1500) and tries < 20000:
            tries += 1
            ln = one(tool)
            said, v = understand(tool, ln)
            if any("\0" in w or not w.isascii() for w in ln) or (said == "ok" and not affordable(tool, v)):
                continue
            lines[tuple(ln)] = (said, v)
        for ln, (said, v) in lines.items():
            jobs.append((tool, list(ln), said, v, plain(tool, v) if said == "ok" else None))
    res = room.each([(j[0], j[1]) for j in jobs], [j[2] == "ok" for j in jobs])
    base = iter(room.run([(j[0], j[4]) for j in jobs if j[3] is not None]))
    by = {}
    for (tool, ln, said, v, p), (rc, out, kept, got) in zip(jobs, res):
        want = next(base)[3] if v is not None else ""
        e = {"line": ln, "v": v or [], "plain": p or [], "rc": rc, "out": show(out, 40) if out and said != "ok" else "", "kept": kept, "got": got, "want": want}
        if len(by.get(tool, {"ev": [0] * 40})["ev"]) >= 40:
            by[tool] = {"k": "args", "tool": tool, "ev": [], "_ev": []}
            runs.append(by[tool])
        by[tool]["ev"].append(e)
        by[tool]["_ev"].append("%s (%s): %s%s; %s" % (ln, said, got, "" if kept else " files changed", want))
    # one run per line, so that every rejected line is named
    runs = [{"k": "args", "tool": r["tool"], "ev": [e], "_what": "%s %s" % (r["tool"], x)} for r in runs for e, x in zip(r["ev"], r["_ev"])]
    ctx.traces += len(res)
    ctx.log("%d lines: %s" % (len(jobs), {s: sum(1 for j in jobs if j[2] == s) for s in ("ok", "refused", "told")}))
    ctx.validate("TR_Args", runs, kind="command lines", chunk=8000, describe=lambda x: x["_what"], **TR("Ar"))


REGISTRY = {"C33": c33}
