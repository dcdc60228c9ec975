"""development aid: turns bug descriptions (tools-external python file defining BUGS) into seeded/<id>/ folders.
usage: mkseed.py BUGS.py [id...]"""
import json, os, subprocess, sys, runpy
base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
HEAD = """#!/bin/bash
# run with cwd = the built repository; exit 0: the property holds for the demonstrated case
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
HERE=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
"""
bugs = runpy.run_path(sys.argv[1])["BUGS"]
for b in bugs:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
        continue
    d = "/tmp/mk/repo"
    if not os.path.isdir(d):
        subprocess.check_call(["git", "clone", "-q", "/repo", d])
    subprocess.check_call("git fetch -q && git checkout -q -f " + subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip(), shell=True, cwd=d)
    for f, old, new in b["edits"]:
        p = os.path.join(d, f)
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=d, text=True)
    removed, orig = 0, 0
    for f in {e[0] for e in b["edits"]}:
        bl = subprocess.check_output(["git", "blame", "-s", "-l", "HEAD", "--", f], cwd=d, text=True).splitlines()
        src = subprocess.check_output(["git", "show", "HEAD:" + f], cwd=d, text=True).splitlines()
        for h in subprocess.check_output(["git", "diff", "-U0", "--", f], cwd=d, text=True).splitlines():
            if h.startswith("@@"):
                a = h.split()[1][1:].split(",")
                st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                for i in range(st, st + n):
                    removed += 1
                    orig += bl[i - 1].lstrip("^")[:39] == base[:39]
    out = "/verif/seeded/" + b["id"]
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    demo = HEAD + "".join("cargo build -q --offline --bin %s || exit 3\n" % x for x in b.get("bins", []))
    if "rust" in b:
        open(out + "/demo.rs", "w").write(b["rust"])
        demo += 'cargo build -q --offline --lib || exit 3\nrustc --edition 2021 -L dependency=target/debug/deps --extern stringology=target/debug/libstringology.rlib -o "$T/demo" "$HERE/demo.rs" || exit 3\n'
    if "py" in b:
        open(out + "/demo.py", "w").write(b["py"])
    open(out + "/demo.sh", "w").write(demo + b["demo"])
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    print(b["id"], "changed lines: %d, of the original: %d" % (removed, orig), "" if orig == removed else "<<<")
