#!/usr/bin/env python3
"""Development aid: turns a bug description into seeded/<id>/ after confirming it.

plant.py SPEC.py [--checks]   A spec is a Python file defining
  id, prop, needs, breaks, edits=[(file, old, new[, count])], crate, main (Rust source)
`crate` is the package directory under crates/ the demo uses (imported as `jp`).
Works in a scratch copy of /repo; /repo itself is touched only by --checks, and restored.
"""
import json, os, subprocess, sys, shutil, tempfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "1cb48d2"
PK = {"jsonpath_rfc9535": "jsonpath-rfc9535", "jsonpath_rfc9535_singular_selector": "jsonpath_rfc9535_singular"}
DEMO = '''#!/bin/bash
# Run with cwd /repo after the build: exit 0 if the property holds on the demonstrated case.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME=/root PATH="/root/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS
t="$(mktemp -d)" || exit 9
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat >"$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
jp = { package = "%s", path = "$repo/crates/%s" }
serde_json = "1"
[profile.dev]
debug = 0
[workspace]
X
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo run --offline -q
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def die(m):
    print("FAIL", m); sys.exit(1)
spec = {}
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
exec(open(sys.argv[1]).read(), spec)
if "BUGS" in spec:  # a file of several: plant.py FILE.py ID
    spec = spec["BUGS"][sys.argv[2]]
i = spec["id"]
work = f"/tmp/s/{i}"
sh(f"mkdir -p /tmp/s; rm -rf {work}; cp -a /repo {work}; git -C {work} checkout -q -- .")
head = sh("git rev-parse HEAD", "/repo").stdout.strip()
try:
    for e in spec["edits"]:
        f, old, new = e[:3]
        p = f"{work}/crates/{f}"
        s = open(p).read()
        n = s.count(old)
        want = e[3] if len(e) > 3 else 1
        if n != want: die(f"{f}: {n} occurrences of {old!r}")
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", work).stdout
    if not diff.strip(): die("no diff")
    # changed lines must be the original repository's
    orig = changed = 0
    cur = None; ln = 0
    blame = {}
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
            b = sh(f"git blame -s -l HEAD -- {cur}", "/repo").stdout.splitlines()
            blame[cur] = [x.split()[0].lstrip("^") for x in b]
        elif m := re.match(r"@@ -(\d+)", l): ln = int(m.group(1))
        elif l.startswith("-") and not l.startswith("---"):
            c = blame[cur][ln - 1]; changed += 1
            if subprocess.run(["git", "merge-base", "--is-ancestor", c[:39], BASE], cwd="/repo").returncode == 0: orig += 1
            ln += 1
        elif l.startswith(" "): ln += 1
    print(f"removed lines: {changed}, of the original: {orig}")
    if changed == 0 or orig == 0: print("WARNING: touches no original line")
    d = f"{V}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/main.rs", "w").write(spec["main"])
    c = spec["crate"]
    open(f"{d}/demo.sh", "w").write(DEMO % (PK.get(c, c), c))
    json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    bad = None
    r = sh(f"timeout 300 bash {d}/demo.sh", "/repo")
    if r.returncode != 0: bad = f"demo on the clean tree: {r.returncode}\n{r.stdout}{r.stderr}"
    if not bad:
        r = sh(f"timeout 300 bash {d}/demo.sh", work)
        if r.returncode == 0: bad = "demo passes with the patch"
        else: print("demo with patch:", r.returncode, (r.stdout + r.stderr).strip()[-300:])
        if "could not compile" in r.stderr or "error[E" in r.stderr: bad = "does not compile\n" + r.stderr
    if not bad and "--notest" not in sys.argv:
        # tests, in the scratch copy
        r = sh(f"export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR={work}/target; "
               f"cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 --exact --skip compliance --skip compliance_loop", work)
        failed = re.findall(r"^test (\S+).* \.\.\. FAILED", r.stdout, re.M)
        n = len(re.findall(r"^test .* \.\.\. ok$", r.stdout, re.M))
        print("tests ok:", n, "failed:", failed[:5])
        if failed or n < 3133: bad = f"tests: {len(failed)} failed, {n} ok {r.stderr[-800:]}"
    if bad:
        sh(f"rm -rf {d}"); die(bad)
finally:
    sh(f"rm -rf {work}")
print("PLANTED", i)
if "--checks" in sys.argv:
    os.execvp("bash", ["bash", f"{V}/tools/try.sh", i])
