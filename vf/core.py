"""Driver: builds /repo, runs TLC, executes the real code, reports."""
import fcntl, hashlib, json, os, random, re, resource, shutil, subprocess, sys, time, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
WORKROOT = os.path.join(VERIF, ".work")
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The check itself could not do its work (exit 2)."""


class Violation(Exception):
    pass


# ------------------------------------------------------------------ building
def _cargo_env(release=False):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
             CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    e.pop("RUSTFLAGS", None)
    e.pop("RUST_LOG", None)
    return e


def _repo_hash():
    h = hashlib.sha256()
    files = []
    for top in ("Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            files.append(p)
    for d in ("src", ".cargo", "benches", "examples"):
        for dp, dn, fn in os.walk(os.path.join(REPO, d)):
            dn.sort()
            files += [os.path.join(dp, f) for f in sorted(fn)]
    for p in files:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


def build(profile="debug"):
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stampf = os.path.join(BUILD, "stamp-" + profile)
        h = _repo_hash()
        old = open(stampf).read() if os.path.exists(stampf) else ""
        if old != h:
            fp = os.path.join(BUILD, "target", profile, ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("stringology-") or d.startswith("vharness-"):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
            if os.path.exists(stampf):
                os.remove(stampf)
        flags = ["--release"] if profile == "release" else []
        for args in (["--manifest-path", os.path.join(REPO, "Cargo.toml"), "--bins"],
                     ["--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")]):
            r = subprocess.run(["cargo", "build", "--offline", "-q"] + flags + args,
                               env=_cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise ToolError("build failed:\n" + r.stdout.decode(errors="replace")[-4000:])
        with open(stampf, "w") as f:
            f.write(h)
    return time.time() - t0


# ------------------------------------------------------------------ context
def jline(s):
    """TLC prints ToJson output as a quoted TLA+ string."""
    return json.loads(json.loads(s))


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="%s-%d-" % (pid, os.getpid()), dir=WORKROOT)
        self.violations = []       # (description, replay dict)
        self.samples = []
        self.states = 0
        self.transitions = 0
        self.distinct = 0
        self.traces = 0            # runs of the real code judged by the specification
        self.vectors = 0           # spec behaviours replayed in the code
        self.runs_by_kind = {}
        self.notes = []
        self.spec_runs = []
        self.profile = "debug"
        self.bindir = os.path.join(BUILD, "target", "debug")
        self.nfile = 0

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def use_profile(self, profile):
        build(profile)
        self.profile = profile
        self.bindir = os.path.join(BUILD, "target", profile)

    def file(self, suffix=""):
        self.nfile += 1
        return os.path.join(self.work, "f%d%s" % (self.nfile, suffix))

    def write(self, data, suffix=""):
        p = self.file(suffix)
        with open(p, "wb") as f:
            f.write(bytes(data))
        return p

    def sample(self, s):
        if len(self.samples) < 12:
            s = json.dumps(s) if not isinstance(s, str) else s
            self.samples.append(s if len(s) < 600 else s[:600] + "...")

    # ---- verdicts
    def violation(self, what, **replay):
        self.violations.append((what, replay))
        if len(self.violations) <= 5:
            w = what if len(what) < 400 else what[:400] + "..."
            self.log("violation:", w)

    # ---- the real code
    def lib(self, reqs, procs=8, timeout=300, memory_mb=6000):
        """reqs: list of tuples (function, args...) -> list of ('ok', value) / ('panic', msg) / ('crash', msg)"""
        if not reqs:
            return []
        def enc(r):
            out = []
            for a in r:
                if isinstance(a, (list, tuple, bytes, bytearray)):
                    out.append(",".join(map(str, a)) if len(a) else "-")
                else:
                    out.append(str(a))
            return "\t".join(out)
        lines = [enc(r) for r in reqs]
        n = len(lines)
        res = [None] * n
        procs = max(1, min(procs, (n + 7) // 8))
        chunks = [list(range(k, n, procs)) for k in range(procs)]
        import threading

        def work(idx):
            todo = idx
            while todo:
                done = self._lib_run([lines[i] for i in todo], timeout, memory_mb)
                for i, d in zip(todo, done):
                    res[i] = d
                if len(done) < len(todo):
                    # the process died on request number len(done)
                    res[todo[len(done)]] = ("crash", "process died or did not answer within %ds" % timeout)
                    todo = todo[len(done) + 1:]
                else:
                    todo = []
        ths = [threading.Thread(target=work, args=(c,)) for c in chunks]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        return res

    def _lib_run(self, lines, timeout, memory_mb):
        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (memory_mb << 20, memory_mb << 20))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = subprocess.Popen([os.path.join(self.bindir, "vharness"), "lib"], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=pre)
        try:
            out, _ = p.communicate(("\n".join(lines) + "\n").encode(), timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
        done = []
        for ln in out.decode().split("\n"):
            if "\t" not in ln:
                continue
            k, v = ln.split("\t", 1)
            if k == "ok":
                try:
                    done.append(("ok", json.loads(v)))
                except ValueError:
                    break
            else:
                done.append(("panic", v))
        return done[:len(lines)]

    def lib1(self, reqs, what=None, **kw):
        """lib(), where anything but a value is a violation; failed entries are None"""
        out = []
        for r, (k, v) in zip(reqs, self.lib(reqs, **kw)):
            if k != "ok":
                self.violation("%s%s: the code %s: %s" % (what + ": " if what else "", show(r), k, v),
                               kind="lib", request=jsonable(r), outcome=[k, v])
                out.append(None)
            else:
                out.append(v)
        return out

    def run(self, cases, threads=8):
        """cases: dicts prog, args, stdin (bytes | '@path' | None), out (path | None), env (dict), timeout (s), keep.
        Result dicts: rc (int) | 'timeout' | 'sigN', out, err, file (bytes | None)."""
        if not cases:
            return []
        lines = []
        for c in cases:
            si = c.get("stdin")
            if si is None:
                si = "-"
            elif isinstance(si, str):
                assert si[0] in "@persw"
            else:
                si = "x" + bytes(si).hex()
            env = ";".join("%s=%s" % kv for kv in (c.get("env") or {}).items()) or "-"
            out = c.get("out") or "-"
            if out != "-" and c.get("keep"):
                out = "keep:" + out
            prog = c["prog"] if "/" in c["prog"] else os.path.join(self.bindir, c["prog"])
            fields = [str(int(1000 * c.get("timeout", 30))), si, out, env, prog] + [str(a) for a in c.get("args", [])]
            assert not any("\t" in f or "\n" in f for f in fields), fields
            lines.append("\t".join(fields))
        p = subprocess.run([os.path.join(self.bindir, "vharness"), "exec", str(threads)],
                           input=("\n".join(lines) + "\n").encode(), stdout=subprocess.PIPE, cwd=self.work)
        res = p.stdout.decode().split("\n")[:len(lines)]
        if p.returncode != 0 or len(res) != len(lines):
            raise ToolError("exec harness failed")
        out = []
        for ln in res:
            rc, o, e, f = ln.split("\t")
            out.append({"rc": int(rc) if re.fullmatch(r"-?\d+", rc) else rc,
                        "out": bytes.fromhex(o[1:]), "err": bytes.fromhex(e[1:]),
                        "file": None if f == "-" else bytes.fromhex(f[1:])})
        return out

    # ---- TLC
    def tlc(self, module, consts=None, init="Init", nxt="Next", inv=(), props=(), env=None, workers=8,
            deadlock=False, timeout=600, defs="", heap="6g", spec=None, constraint=None, view=None, xss="64m",
            post=None):
        """Runs TLC on spec/<module>.tla with a generated cfg. `consts`: name -> TLA+ value text,
        or ('<-', operator)."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cfg = []
        if spec:
            cfg.append("SPECIFICATION " + spec)
        else:
            cfg += ["INIT " + init, "NEXT " + nxt]
        for k, v in (consts or {}).items():
            cfg.append("CONSTANT %s %s" % (k, "<- " + v[1] if isinstance(v, tuple) else "= " + str(v)))
        for i in inv:
            cfg.append("INVARIANT " + i)
        for i in props:
            cfg.append("PROPERTY " + i)
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        if view:
            cfg.append("VIEW " + view)
        if post:
            cfg.append("POSTCONDITION " + post)
        cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        cfgp = os.path.join(d, module + ".cfg")
        open(cfgp, "w").write("\n".join(cfg) + "\n")
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-Xmx" + heap, "-Xss" + xss, "-XX:+UseParallelGC", "-XX:+TieredCompilation", "-cp", TLA_CP,
               "-Dtlc2.TLC.stopAfter=%d" % (timeout + 60),
               "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "states"), "-workers", str(workers),
               "-fp", "1", "-config", cfgp, os.path.join(SPEC, module + ".tla")]
        t0 = time.time()
        outp = os.path.join(d, "out.txt")
        with open(outp, "wb") as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=d)
            try:
                p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                raise ToolError("TLC timed out after %ds on %s" % (timeout, module))
        text = open(outp, errors="replace").read()
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", text):
            pass
        r = {"module": module, "rc": p.returncode, "text": text, "secs": time.time() - t0,
             "generated": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0,
             "finished": "Model checking completed. No error has been found." in text,
             "violated": re.findall(r"(?:Invariant|property) (\S+) (?:is|was) violated", text),
             "deadlock": "Deadlock reached" in text,
             "lines": text.split("\n")}
        self.spec_runs.append("%s%s: %d states, %d distinct, %.1fs" % (
            module, " " + json.dumps({k: v for k, v in (consts or {}).items() if not isinstance(v, tuple)}) if consts else "",
            r["generated"], r["distinct"], r["secs"]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return r

    def model_check(self, module, consts=None, want_vectors=False, min_states=1, **kw):
        """Exhaustive bounded model checking of the specification itself. Any error is a
        fault of the specification (exit 2). Returns the exported vectors."""
        r = self.tlc(module, consts, **kw)
        if not r["finished"]:
            raise ToolError("model checking %s failed:\n%s" % (module, tail(r["text"])))
        if r["distinct"] < min_states:
            raise ToolError("model checking %s explored only %d states" % (module, r["distinct"]))
        vec = [jline(x) for x in r["lines"] if x.startswith('"{')] if want_vectors else []
        self.log("model checked", self.spec_runs[-1], "(%d vectors)" % len(vec) if want_vectors else "")
        return vec

    def validate(self, module, runs, kind=None, consts=None, timeout=None, heap="8g", chunk=None, describe=None, **kw):
        """Trace validation: every run (a dict with 'id' filled in here) is judged by spec/<module>.tla.
        Rejected runs become violations. Returns the set of rejected indices."""
        if not runs:
            return set()
        bad = {}
        for i, x in enumerate(runs):
            x["id"] = i
        # large runs first, so that blocks are balanced
        order = sorted(range(len(runs)), key=lambda i: -len(runs[i].get("t", ())) - len(runs[i].get("ev", ())))
        seqs = [order] if not chunk else [order[i:i + chunk] for i in range(0, len(order), chunk)]
        for ids in seqs:
            todo = list(ids)
            for attempt in range(4):
                fn = os.path.join(self.work, "trace%d.json" % self.nfile)
                self.nfile += 1
                payload = [{k: v for k, v in runs[i].items() if not k.startswith("_")} for i in todo]
                with open(fn, "w") as f:
                    json.dump(payload, f)
                cs = {}
                cs.update(consts or {})
                r = self.tlc(module, cs, env={"TRACE": fn}, timeout=timeout or self.pick(600, 3000), heap=heap, **kw)
                rej = {}
                for x in re.finditer(r'<<"REJECT",\s*(\d+),\s*(-?\d+),\s*"([^"]*)"\s*>>', r["text"]):
                    rej[int(x.group(1))] = (int(x.group(2)), x.group(3))
                bad.update(rej)
                if r["finished"]:
                    exp = sum(len(x.get("ev", ())) + 2 for x in payload) + min(32, len(payload))
                    if not rej and r["distinct"] != exp:
                        raise ToolError("%s consumed %d of %d trace states" % (module, r["distinct"], exp))
                    os.remove(fn)
                    break
                # evaluation error on some run: identify it, judge the others
                m = None
                for m in re.finditer(r"/\\ run = (\d+)", r["text"]):
                    pass
                if m is None or "rror" not in r["text"]:
                    raise ToolError("trace validation with %s failed:\n%s" % (module, tail(r["text"])))
                k = int(m.group(1)) - 1
                ln = re.search(r"(The error occurred|Attempted|Error:)[^\n]*\n?[^\n]*", r["text"])
                self.log("evaluation error in", module, tail(r["text"], 1500))
                if os.environ.get("VERIF_DEBUG"):
                    shutil.copy(fn, "/tmp/last_trace.json")
                bad[todo[k]] = (-1, "not evaluable by the specification: " + (ln.group(0) if ln else "?")[:200])
                del todo[k]
                if not todo:
                    break
            else:
                raise ToolError("trace validation with %s keeps failing" % module)
        for i in sorted(bad):
            x = runs[i]
            what = describe(x) if describe else x.get("_what") or show({k: v for k, v in x.items() if k != "id"})
            self.violation("%s rejected by %s (event %d: %s)" % (what, module, bad[i][0], bad[i][1]),
                           kind="trace", module=module, run=jsonable(x), event=bad[i][0], reason=bad[i][1])
        n = len(runs)
        self.traces += n
        kind = kind or module
        self.runs_by_kind[kind] = self.runs_by_kind.get(kind, 0) + n
        if n:
            s = min(runs, key=lambda x: abs(len(x.get("t", ())) - 12))
            self.sample({k: v for k, v in s.items() if k != "id"})
        self.log("validated %d runs with %s (%d rejected), %s" % (n, module, len(bad), self.spec_runs[-1]))
        return set(bad)

    def expect_vector(self, ok, what, **replay):
        self.vectors += 1
        if not ok:
            self.violation(what, kind="vector", **{k: jsonable(v) for k, v in replay.items()})


def tail(s, n=3000):
    return s if len(s) <= n else "..." + s[-n:]


def jsonable(x):
    if isinstance(x, (bytes, bytearray)):
        return {"bytes": bytes(x).hex()}
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    return x


def show(x, n=300):
    s = json.dumps(jsonable(x))
    return s if len(s) <= n else s[:n] + "..."


# ------------------------------------------------------------------ running a check
def main(pid, tier, registry):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(WORKROOT, exist_ok=True)
    if pid not in registry:
        print("unknown property", pid)
        return 2
    ctx = Ctx(pid, tier, seed)
    try:
        secs = build()
        ctx.log("built /repo and the harness in %.1fs" % secs)
        if os.environ.get("VERIF_PROFILE") == "release":       # development aid
            ctx.use_profile("release")
        registry[pid](ctx)
        if tier == "thorough" and pid != "C26":
            # the optimized build: no overflow checks, no debug assertions; other inputs
            ctx.use_profile("release")
            ctx.quick, ctx.rng = True, random.Random("%s/%d/release" % (pid, seed))
            ctx.log("again with the release build")
            registry[pid](ctx)
    except ToolError as e:
        if not ctx.violations:
            print("TOOL ERROR:", e, flush=True)
            return 2
        ctx.log("stopped early:", str(e)[:500])
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)
    wall = time.time() - ctx.t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                       "traces_validated_against_impl": ctx.traces + ctx.vectors,
                       "explanation": "%d recorded runs of the real code judged by trace specifications, "
                                      "%d behaviours of the specification replayed in the real code; by kind: %s"
                                      % (ctx.traces, ctx.vectors, json.dumps(ctx.runs_by_kind)),
                       "specification_runs": ctx.spec_runs,
                       "samples": ctx.samples or ["-"]},
          "assumptions": ctx.notes, "wall_s": round(wall, 2), "violations": len(ctx.violations)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if not ctx.violations:
        if ctx.traces + ctx.vectors == 0:
            print("TOOL ERROR: nothing was compared with the implementation")
            return 2
        print("OK property=%s tier=%s states=%d traces=%d vectors=%d wall=%.1fs" % (
            pid, tier, ctx.states, ctx.traces, ctx.vectors, wall))
        return 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    rp = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, tier))
    with open(rp, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed,
                   "violations": [{"what": w, "replay": jsonable(r)} for w, r in ctx.violations[:50]],
                   "total": len(ctx.violations)}, f, indent=1)
    print("%d violation(s); first: %s" % (len(ctx.violations), ctx.violations[0][0][:600]))
    print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
    return 1
