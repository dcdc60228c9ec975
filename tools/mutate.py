#!/usr/bin/env python3
"""Mutation campaign (development aid, no check): small edits of /repo's sources that survive the
existing tests are run against the checks of the properties anchored there.
usage: mutate.py WORKERS OUT.jsonl [file regex] [sample fraction] [seed]"""
import json, os, random, re, shutil, subprocess, sys, threading, time
W, OUT = int(sys.argv[1]), sys.argv[2]
PAT = re.compile(sys.argv[3] if len(sys.argv) > 3 else ".")
FRAC = float(sys.argv[4]) if len(sys.argv) > 4 else 1.0
rng = random.Random(int(sys.argv[5]) if len(sys.argv) > 5 else 1)
CORE = {"bwt_from_text_by_sa": "C02", "bwt_by_matrix_naive": "C03", "bwt_by_matrix": "C03", "lyndon_conjugate": "C19 C03", "is_primitive": "C18",
        "smallest_period": "C18", "bbwt_naive": "C04", "suffixarray_naive": "C02 C17", "bwt_from_sa": "C02", "border_array": "C18", "bit_size": "C25",
        "compute_phi": "C17 C06", "inverse_permutation": "C17 C07", "compute_plcp": "C17 C07 C09", "compute_lcp": "C17 C07", "compute_psv": "C17 C05", "compute_nsv": "C17 C05",
        "duval": "C01 C04", "isa_lyndon_factorization": "C01", "new": "C25 C20 C21", "number_of_runs": "C11 C29", "stringopt_stropt": "C16 C28", "get_filename": "C28"}
BIN = {"bwt": "C02 C03", "count_lexparse": "C06", "count_r": "C11", "count_runs": "C11", "count_sigma": "C12", "count_z": "C05", "entropy": "C09",
       "entropy_kmer": "C10", "enumerate": "C21", "enumerate_lexparse": "C26", "escape": "C13 C30", "generator_kmer": "C21", "is_stringattractor": "C08",
       "lyndonfactorization": "C01", "lyndonwords": "C20", "mtf": "C15", "mus": "C07", "randomstring": "C25", "reverse": "C16", "rle": "C14", "word": "C22 C23 C24"}


def checks_for(f, fn, ln):
    if f == "src/core.rs":
        if fn == "next":
            return ("C25" if ln < 455 else "C20" if ln < 500 else "C21" if ln < 535 else "C19").split() + ["C20", "C21", "C25"]
        return CORE.get(fn, "C01 C17").split()
    if f == "src/io.rs":
        return "C16 C29 C27 C28".split()
    if f == "src/word.rs":
        return "C22 C23 C24".split()
    return BIN[os.path.basename(f)[:-3]].split() + "C28 C16 C27 C29".split()


def mutants(f):
    src = open(os.path.join("/repo", f)).read().split("\n")
    out, fn, skip, depth = [], "", False, 0
    intest = False
    for i, line in enumerate(src):
        m = re.match(r"\s*(?:pub )?fn (\w+)", line)
        if m:
            fn = m.group(1)
        if "#[cfg(test)]" in line or "#[test]" in line:
            intest = True
        if intest:
            if re.match(r"^}", line) or re.match(r"^extern crate", line):
                intest = False
            continue
        code = line.split("//")[0]
        if not code.strip() or re.search(r"(debug|info)!|^\s*#|^\s*use |extern crate|^\s*\"|assert", code) or f.endswith("lib.rs"):
            continue
        if re.match(r"\s*(pub )?(fn|struct|impl|mod|enum|const|static)", code) and "const" not in code and "static" not in code:
            continue

        def add(new, op):
            if new != line:
                out.append((f, i, line, new, op, fn))
        for a, b in [(" == ", " != "), (" != ", " == "), (" <= ", " < "), (" >= ", " > "), (" < ", " <= "), (" > ", " >= "), (" && ", " || "), (" || ", " && "),
                     (" + ", " - "), (" - ", " + "), (" += ", " -= "), (" * ", " + "), (" / ", " * "), (" % ", " / "), ("true", "false"), ("false", "true"), (" + 1", ""), (" - 1", ""),
                     ("..=", ".."), (".rev()", ""), ("as usize", "as u8 as usize"), ("as u32", "as u16 as u32"), (" >> ", " << "), (" << ", " >> "), ("usize", "u16"), ("write_all(", "write("),
                     (" = i;", " = i + 1;"), (".is_empty()", ".len() == 1"), ("Some(", "None; // "), ("!", ""), ("u64", "u32"), ("f64", "f32"), ("min(", "max("), ("max(", "min(")]:
            for m in re.finditer(re.escape(a), code):
                if a == "!" and (code[m.start() - 1:m.start()].isalnum() or code[m.start() + 1:m.start() + 2] == "="):
                    continue
                add(line[:m.start()] + b + line[m.end():], a.strip() + "->" + b.strip())
        for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w.\"'])", code):
            v = int(m.group(1))
            for x in {v + 1, v - 1} - {-1}:
                add(line[:m.start()] + str(x) + line[m.end():], "%d->%d" % (v, x))
        for m in re.finditer(r"(?<![\w.])(\d+)(u8|usize|u32|u64|_usize|_u8)\b", code):
            add(line[:m.start()] + str(int(m.group(1)) + 1) + m.group(2) + line[m.end():], "literal+1")
        if code.strip().endswith(";") and not re.match(r"\s*(let|return|use|break;|\})", code) and re.match(r"\s*[\w*.\[\]()]", code) and code.count("(") == code.count(")"):
            add(re.match(r"\s*", line).group(0) + ";", "delete")
        if code.strip() == "break;":
            add(line.replace("break;", "continue;"), "break->continue")
        if code.strip() == "continue;":
            add(line.replace("continue;", "break;"), "continue->break")
    return out


ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
lock = threading.Lock()
jobs = []
for dp, dn, fns in os.walk("/repo/src"):
    for x in sorted(fns):
        f = os.path.relpath(os.path.join(dp, x), "/repo")
        if "tests" not in f and "unfinished" not in f and PAT.search(f):
            jobs += [m for m in mutants(f) if rng.random() < FRAC]
rng.shuffle(jobs)
print(len(jobs), "mutants", flush=True)
t00 = time.time()
done = [0]


def worker(k):
    root = "/tmp/mut/w%d" % k
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    repo, ver = root + "/repo", root + "/verif"
    shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("target", ".git"))
    shutil.copytree("/verif", ver, ignore=shutil.ignore_patterns(".git", ".build", ".work", "seeded", "replays"))
    ct = open(ver + "/harness/Cargo.toml").read().replace('"/repo"', '"%s"' % repo)
    open(ver + "/harness/Cargo.toml", "w").write(ct)
    env = dict(ENV, VERIF_REPO=repo, CARGO_TARGET_DIR=root + "/target")
    while True:
        with lock:
            if not jobs:
                return
            f, i, old, new, op, fn = jobs.pop()
        p = os.path.join(repo, f)
        src = open(os.path.join("/repo", f)).read().split("\n")
        assert src[i] == old
        src[i] = new
        open(p, "w").write("\n".join(src))
        rec = {"file": f, "line": i + 1, "fn": fn, "op": op, "old": old.strip(), "new": new.strip()}
        try:
            try:
                r = subprocess.run("cargo test -q --offline --workspace --no-fail-fast -- --test-threads 4", shell=True, cwd=repo, env=env, stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90)
                txt = r.stdout.decode(errors="replace")
                rec["state"] = "survivor" if r.returncode == 0 else "nobuild" if "could not compile" in txt else "killed by tests"
            except subprocess.TimeoutExpired:
                subprocess.run("pkill -9 -f %s/target/debug/deps" % root, shell=True)
                rec["state"] = "tests hang"
            if rec["state"] == "survivor":
                rec["checks"] = {}
                cl = list(dict.fromkeys(checks_for(f, fn, i + 1)))
                for c in cl:
                    try:
                        e = dict(ENV, VERIF_REPO=repo, VERIF_SEED="1")
                        r = subprocess.run(["python3", "check.py", c, "quick"], cwd=ver, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                        rec["checks"][c] = r.returncode
                        if r.returncode == 2:
                            rec["tail"] = r.stdout.decode(errors="replace")[-600:]
                    except subprocess.TimeoutExpired:
                        rec["checks"][c] = "timeout"
                        subprocess.run("pkill -9 -f %s/verif/.build" % root, shell=True)
                    if rec["checks"][c] == 1:
                        break
                rec["state"] = "caught" if 1 in rec["checks"].values() else "ALIVE"
        finally:
            shutil.copy(os.path.join("/repo", f), p)
        with lock:
            done[0] += 1
            open(OUT, "a").write(json.dumps(rec) + "\n")
            if rec["state"] == "ALIVE" or done[0] % 50 == 0:
                print("%5ds %d done %s" % (time.time() - t00, done[0], json.dumps(rec) if rec["state"] == "ALIVE" else ""), flush=True)


ts = [threading.Thread(target=worker, args=(k,)) for k in range(W)]
[t.start() for t in ts]
[t.join() for t in ts]
