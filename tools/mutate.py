#!/usr/bin/env python3
"""Development aid: mutation testing of the checks, in scratch copies.

mutate.py gen OUT.jsonl [CRATE...]      lists single-edit mutants of the crates' sources
mutate.py run IN.jsonl OUT.jsonl W [FROM STEP]   judges every STEP-th in /tmp/mut/W
A mutant that compiles and passes its crate's tests is given to the checks, at a
fraction of their quick counts; the verdict is the first check that reports it, or `survived`.
"""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:/usr/local/bin:" + os.environ["PATH"],
           RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
ENV.pop("RUSTFLAGS", None)

def code_spans(s):
    """positions that are code: not comments, not string literals (chars are code), not test modules"""
    ok = bytearray(b"\1") * len(s)
    i = 0
    while i < len(s):
        if s.startswith("//", i):
            j = s.find("\n", i); j = len(s) if j < 0 else j
            ok[i:j] = b"\0" * (j - i); i = j
        elif s.startswith("/*", i):
            j = s.find("*/", i) + 2; ok[i:j] = b"\0" * (j - i); i = j
        elif s[i] == '"':
            j = i + 1
            while s[j] != '"': j += 2 if s[j] == "\\" else 1
            j += 1; ok[i:j] = b"\0" * (j - i); i = j
        elif m := re.compile(r"'(\\u\{[0-9A-Fa-f]+\}|\\.|[^'\\])'").match(s, i): i = m.end()
        else: i += 1
    m = re.search(r"#\[cfg\(test\)\]", s)
    if m: ok[m.start():] = b"\0" * (len(s) - m.start())
    return ok

OPS = [(r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]),
       (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"is_some\(\)", ["is_none()"]), (r"is_none\(\)", ["is_some()"]),
       (r"is_ok\(\)", ["is_err()"]), (r"is_err\(\)", ["is_ok()"]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]),
       (r"\.rev\(\)", [""]), (r"\.skip\(\d+\)", [""]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"starts_with", ["ends_with"]),
       (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]), (r"\.flatten\(\)", [""]), (r"\.is_empty\(\)", [".is_empty() == false"]),
       (r"(?<![\w!=>])!(?=[a-z(])", [""]), (r"\.\.=", [".."]), (r"(?<!\.)\.\.(?=[\w(])(?!=)", ["..="]),
       (r"\.abs\(\)", [""]), (r"\bSome\((\w+)\) =>", [r"Some(\1) if false =>"]), (r"\.(?:trim|trim_\w+)\([^()]*\)", [""]),
       (r"\bchecked_add\b", ["checked_sub"]), (r"\bchecked_sub\b", ["checked_add"]), (r"saturating_(add|sub)", [r"wrapping_\1"]),
       (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]), (r"\?;", [".ok();"]), (r"\.len\(\)", [".len() + 1", ".len() - 1"]),
       (r"\belse if\b", ["if"]), (r"u8::MAX|i64::MAX|i64::MIN", ["0"]), (r"\.chars\(\)\.count\(\)", [".len()"]),
       (r"\.unwrap_or\(([^()]*)\)", [".unwrap_or_default()"]), (r"\bas_i64\(\)", ["as_u64().map(|n| n as i64)"]), (r"as_f64\(\)", ["as_i64().map(|n| n as f64)"])]
PEST = [(r"\*(?=[\s)}])", ["+", "?"]), (r"\+(?=[\s)}])", ["*", ""]), (r"\?(?=[\s)}])", ["", "*"]), (r"\bS ~ ", [""]), (r" ~ S\b", [""]),
        (r"\| ", ["~ "]), (r"!", ["", "&"]), (r"@\{", ["{", "${"]), (r"_\{", ["{"]), (r"\{(?= \")", ["{ "])]

def gen(path, rel):
    s = open(path).read()
    out = []
    def add(a, b, new, why):
        if s[a:b] != new: out.append({"file": rel, "a": a, "b": b, "new": new, "why": why, "line": s.count("\n", 0, a) + 1, "old": s[a:b]})
    if path.endswith(".pest"):
        for pat, news in PEST:
            for m in re.finditer(pat, s):
                if s.rfind("//", s.rfind("\n", 0, m.start()) + 1, m.start()) >= 0: continue
                for n in news: add(m.start(), m.end(), n, pat)
        for m in re.finditer(r"^\s*\| [^\n{}]+$", s, re.M): add(m.start(), m.end(), "", "drop alternative")
        for m in re.finditer(r" \| [^|\n{}()]+(?=[|\n)}])", s): add(m.start(), m.end(), " ", "drop alternative")
        for m in re.finditer(r"'(.)'\.\.'(.)'", s):
            c, d = m.groups()
            add(m.start(), m.end(), f"'{chr(ord(c)+1)}'..'{d}'", "range"); add(m.start(), m.end(), f"'{c}'..'{chr(ord(d)-1)}'", "range")
        for m in re.finditer(r"\\u\{([0-9A-Fa-f]+)\}", s):
            n = int(m.group(1), 16)
            for k in (n - 1, n + 1): add(m.start(), m.end(), "\\u{%X}" % k, "code point")
        return out
    ok = code_spans(s)
    for pat, news in OPS:
        for m in re.finditer(pat, s):
            if not all(ok[m.start():m.end()]): continue
            for n in news: add(m.start(), m.end(), m.expand(n), pat)
    for m in re.finditer(r"(?<![\w.'{])(\d+)(?![\w.])", s):
        if not all(ok[m.start():m.end()]): continue
        n = int(m.group(1)); add(m.start(), m.end(), str(n + 1), "int")
        if n: add(m.start(), m.end(), str(n - 1), "int")
    for m in re.finditer(r"\bif (?!let)([^{};]+) \{", s):
        if not ok[m.start()]: continue
        c = m.group(1)
        add(m.start(1), m.end(1), "true || " + c if "||" not in c and "&&" not in c else f"true || ({c})", "if true")
        add(m.start(1), m.end(1), f"false && ({c})", "if false")
    for m in re.finditer(r"^[ \t]+(?:self\.|\w+\.|\*?\w+ [-+]?= |\w+\().*;$", s, re.M):
        if all(ok[m.start():m.start() + 3]) and not re.match(r"\s+(let|use|pub|return)\b", m.group(0)): add(m.start(), m.end(), "", "drop statement")
    for m in re.finditer(r"^[ \t]+(?!_ =>)[^\n]+ => [^\n]+,$", s, re.M):
        if ok[m.start()] : add(m.start(), m.end(), "", "drop arm")
    for m in re.finditer(r"('(?:\\u\{\w+\}|\\.|[^'\\])') \| ", s):
        if ok[m.start()]: add(m.start(), m.end(), "", "drop pattern")
    for m in re.finditer(r" \| ('(?:\\u\{\w+\}|\\.|[^'\\])'(?:\.\.='[^']+')?)", s):
        if ok[m.start()]: add(m.start(), m.end(), "", "drop pattern")
    for m in re.finditer(r"'([a-zA-Z0-9])'\.\.='([a-zA-Z0-9])'", s):
        if ok[m.start()]:
            c, d = m.groups()
            add(m.start(), m.end(), f"'{chr(ord(c)+1)}'..='{d}'", "range"); add(m.start(), m.end(), f"'{c}'..='{chr(ord(d)-1)}'", "range")
    for m in re.finditer(r"(?:\\u\{|0x)([0-9A-Fa-f]+)\}?", s):
        if ok[m.start()]:
            n = int(m.group(1), 16); t = m.group(0)
            for k in (n - 1, n + 1):
                if k >= 0: add(m.start(), m.end(), t.replace(m.group(1), "%X" % k), "code point")
    return out

def sh(cmd, cwd=None, timeout=600, **k):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, start_new_session=True, **k)
    try:
        o, e = p.communicate(timeout=timeout)
        return subprocess.CompletedProcess(cmd, p.returncode, o, e)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")

PKG = {"jsonpath_rfc9535": "jsonpath-rfc9535", "jsonpath_rfc9535_singular_selector": "jsonpath_rfc9535_singular"}
PARSE = "C03 C04 C02 C01 C20 C21 C27 C26 C22 C30 C28 C05 C16 C19".split()
EVAL = "C14 C07 C08 C09 C10 C13 C23 C11 C12 C06 C25 C17 C18 C22 C15 C29 C16 C30 C28 C21 C24".split()
FRAC = 15
def order(f):
    n = os.path.basename(f)
    if "/jsonpath_rfc9535/" in f or "_pest" in f or n in ("parser.rs", "unescape.rs", "jsonpath.pest"): l = PARSE + EVAL
    else: l = EVAL + PARSE
    if n == "lexer.rs": l = ["C20"] + l
    if n == "standard_functions.rs": l = ["C12", "C11", "C15"] + l
    if n in ("conslist.rs", "node.rs"): l = ["C29", "C13"] + l
    if "filter" in n: l = ["C09", "C10"] + l
    return list(dict.fromkeys(l))

COUNTS = None
def counts():
    r = {}
    for l in sh(f"{V}/target/debug/vh list").stdout.splitlines():
        m = re.match(r"(C\d+).*?quick[ =:]*(\d+)", l)
        if m: r[m.group(1)] = int(m.group(2))
    return r

def main():
    if sys.argv[1] == "gen":
        crates = sys.argv[3:] or sorted(os.listdir("/repo/crates"))
        l = []
        for c in crates:
            d = f"/repo/crates/{c}/src"
            for f in sorted(os.listdir(d)):
                if f in ("main.rs",): continue
                l += gen(f"{d}/{f}", f"crates/{c}/src/{f}")
        random.Random(7).shuffle(l)
        with open(sys.argv[2], "w") as o:
            for x in l: o.write(json.dumps(x) + "\n")
        print(len(l)); return
    src, dst, w = sys.argv[2:5]
    frm, step = (int(x) for x in (sys.argv[5:7] or (0, 1)))
    W = f"/tmp/mut/{w}"
    if not os.path.isdir(W):
        os.makedirs(W)
        sh(f"git clone -q /repo {W}/repo; cp -a {V}/harness {W}/harness; mkdir -p {W}/v/evidence {W}/v/work")
        sh(f"sed -i 's#/repo/crates#{W}/repo/crates#' {W}/harness/Cargo.toml")
    sh(f"cp {V}/known-findings.json {W}/v/; rsync -a --exclude Cargo.toml {V}/harness/ {W}/harness/ || cp -a {V}/harness/src {W}/harness/")
    cnt = counts()
    done = set()
    if os.path.exists(dst): done = {json.loads(l)["i"] for l in open(dst)}
    build = f"cd {W}/harness && CARGO_TARGET_DIR={W}/ht cargo build --offline --locked --profile dev"
    for i, l in enumerate(open(src)):
        if i % step != frm or i in done: continue
        m = json.loads(l); t0 = time.time()
        sh("git checkout -q -- .", f"{W}/repo")
        p = f"{W}/repo/{m['file']}"
        s = open(p).read()
        assert s[m["a"]:m["b"]] == m["old"]
        open(p, "w").write(s[:m["a"]] + m["new"] + s[m["b"]:])
        crate = m["file"].split("/")[1]
        pk = PKG.get(crate, crate)
        r = sh(build, timeout=600)
        if r.returncode: v = "nocompile"; m["err"] = r.stderr[-1500:]
        else:
            v = "survived"
            for c in order(m["file"]):
                n = max(cnt.get(c, 5000) // (FRAC if c not in ("C04", "C15", "C16", "C28", "C30") else 5), 30)
                r = sh(f"ulimit -c 0; ulimit -v 14000000; {W}/ht/debug/vh check {c} --tier quick --seed 1 --verif {W}/v --cases {n}", timeout=400)
                if r.returncode == 1: v = c; m["msg"] = r.stdout[-600:]; break
                if r.returncode not in (0, 1): v = f"{c} rc {r.returncode}"; m["msg"] = (r.stdout + r.stderr)[-600:]; break
            if v == "survived":
                r = sh(f"CARGO_TARGET_DIR={W}/rt cargo test --no-fail-fast --offline --locked -p {pk} -- --test-threads 8 --exact --skip compliance --skip compliance_loop", f"{W}/repo", timeout=240)
                if r.returncode == 124 or r.returncode: v = "tests only"
        m.update(i=i, verdict=v, secs=round(time.time() - t0, 1))
        with open(dst, "a") as o: o.write(json.dumps(m) + "\n")
        print(i, m["file"], m["line"], repr(m["old"][:50]), "->", repr(m["new"][:50]), v, m["secs"], flush=True)
main()
