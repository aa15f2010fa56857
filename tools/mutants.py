#!/usr/bin/env python3
"""Mutation campaign on scratch copies (development aid, not a check).

mutants.py list [FILES..]          the mutants, one JSON object per line
mutants.py run LIST OUT [N SKIP]   build and search each; appends a JSON line per mutant to OUT
The scratch copies are /tmp/mw/repo (of /repo) and /tmp/mw/verif (of /verif).
"""
import glob, json, os, random, re, subprocess, sys

SRC = "/repo"

def files():
    out = []
    for pat in ("vercre-*/src/**/*.rs", "crates/*/src/**/*.rs"):
        out += glob.glob(f"{SRC}/{pat}", recursive=True)
    bad = ("/test-utils/", "/macro-tests/", "/status/", "/log.rs", "/examples/")
    return sorted(f for f in out if not any(b in f for b in bad))

def body(text):
    """lines outside test modules, comments and attributes"""
    cut = re.search(r"(?m)^#\[cfg\(test\)\]", text)
    n = text[: cut.start()].count("\n") if cut else text.count("\n") + 1
    for i, l in enumerate(text.split("\n")[:n]):
        t = l.strip()
        if not t or t.startswith(("//", "#[", "#!", "use ", "pub use", "mod ", "pub mod", "tracing::")):
            continue
        yield i, l

OPS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\.all\(", ".any("), (r"\.any\(", ".all("),
    (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"), (r"is_ok\(\)", "is_err()"), (r"is_err\(\)", "is_ok()"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ ", " - "), (r" - ", " + "),
    (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"Expire::Authorized", "Expire::Access"),
    (r"Expire::Access", "Expire::Nonce"), (r"Expire::Nonce", "Expire::Access"), (r"\.chain\(", ".zip("),
    (r"\.skip\(1\)", ".skip(0)"), (r"\.is_some_and\(", ".is_none_or("), (r"\.sort\w*\([^)]*\);", ";"),
    (r"unwrap_or_default\(\)", "unwrap_or_default().clone()"),
]

def mutants(path):
    text = open(path).read()
    lines = text.split("\n")
    rel = os.path.relpath(path, SRC)
    def out(i, new, kind):
        if new != lines[i]:
            yield {"file": rel, "line": i + 1, "old": lines[i], "new": new, "kind": kind}
    for i, l in body(text):
        code = l.split(" // ")[0]
        m = re.match(r"^(\s*(?:\} else )?)if (?!let )(.+) \{$", code)
        if m:
            yield from out(i, f"{m[1]}if !({m[2]}) {{", "negate")
            yield from out(i, f"{m[1]}if false && ({m[2]}) {{", "never")
            yield from out(i, f"{m[1]}if true || ({m[2]}) {{", "always")
        m = re.match(r"^(\s*)([\w.:]+(?:\(.*\)|\[.*\])?)?.*;$", code)
        st = code.strip()
        if st.endswith(";") and not st.startswith(("let ", "return", "}", ")", "type ", "const ", "static ", "pub ", ".", "bail!", "break", "continue", "]", "struct", "impl", "fn ", "anyhow")) \
           and (i == 0 or lines[i - 1].rstrip().endswith((";", "{", "}")) or not lines[i - 1].strip()):
            yield from out(i, re.match(r"^\s*", code)[0] + "{}", "delete")
        m = re.match(r"^(\s*)(\w+): Some\((.*)\),$", code)
        if m:
            yield from out(i, f"{m[1]}{m[2]}: None,", "none")
        m = re.match(r"^(\s*)(\w+): (.+),$", code)
        if m and m[3] not in ("None", "true", "false") and not re.match(r"^[A-Z&]", m[3]) and "(" in m[3]:
            yield from out(i, f"{m[1]}{m[2]}: Default::default(),", "default")
        m = re.match(r"^(\s*)(\w+(?:\.\w+)+) = (.+);$", code)
        if m:
            yield from out(i, f"{m[1]}{m[2]} = Default::default();", "default=")
        m = re.match(r"^(\s*)\.(filter|filter_map|take|skip|rev|dedup|trim|or|or_else|map_err)\(.*\)$", code)
        if m and m[2] in ("filter", "rev", "take", "skip"):
            yield from out(i, m[1], "unchain")
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if code[: m.start()].count('"') % 2:
                    continue
                if pat.strip() in ("<", ">") and "fn " in code:
                    continue
                yield from out(i, code[: m.start()] + rep + code[m.end():], pat.strip())
        for m in re.finditer(r"(?<![\w.\"#])(\d+)(?![\w.\"])", code):
            if code[: m.start()].count('"') % 2:
                continue
            for d in (1, -1):
                n = int(m[1]) + d
                if n >= 0:
                    yield from out(i, code[: m.start()] + str(n) + code[m.end():], "number")
        for m in re.finditer(r'"([^"\\]*)"', code):
            if re.search(r"Error::|bail!|anyhow!|\.context|debug!|error!|warn!|expect\(|format!|panic|serde\(|Error\b|write!", code):
                continue
            s = m[1]
            new = s[:-1] + ("y" if s.endswith("x") else "x") if s else "x"
            yield from out(i, code[: m.start()] + f'"{new}"' + code[m.end():], "string")
    # whole multi-line statements: `X(...)...;` spread over lines starting with a call
    # serde attributes
    cut = re.search(r"(?m)^#\[cfg\(test\)\]", text)
    n = text[: cut.start()].count("\n") if cut else len(lines)
    for i, l in enumerate(lines[:n]):
        if l.strip().startswith("#[serde("):
            yield {"file": rel, "line": i + 1, "old": l, "new": "", "kind": "serde"}
            m = re.search(r'rename = "([^"]+)"', l)
            if m:
                yield {"file": rel, "line": i + 1, "old": l, "new": l.replace(m[1], m[1] + "x"), "kind": "rename"}
        # match arms: `Pat => expr,` returning bool/str handled by OPS
    # multi-line statement deletion
    i = 0
    while i < n:
        t = lines[i].strip()
        if re.match(r"^(StateStore|Metadata|Subject|DidResolver|Status|[a-z_]\w*(\.\w+)*\.(insert|push|extend|retain))\b.*[^;]$", t) or re.match(r"^(StateStore::\w+|Metadata::\w+)\($", t):
            j = i
            while j < n and not lines[j].rstrip().endswith(";"):
                j += 1
            if 0 < j - i < 8 and lines[i - 1].rstrip().endswith((";", "{", "}")):
                yield {"file": rel, "line": i + 1, "old": "\n".join(lines[i:j + 1]), "new": "", "kind": "delete*"}
        m = re.match(r"^if (?!let )", t)
        if m and not t.endswith("{"):
            j = i
            while j < n and not lines[j].rstrip().endswith("{"):
                j += 1
            if 0 < j - i < 8:
                old = "\n".join(lines[i:j + 1])
                ind = re.match(r"^\s*", lines[i])[0]
                cond = old.strip()[3:-1]
                for k, pre in (("never", "false && ("), ("negate", "!("), ("always", "true || (")):
                    yield {"file": rel, "line": i + 1, "old": old, "new": f"{ind}if {pre}{cond}) {{", "kind": k}
        i += 1

#: profiles worth running for a file
FOR = [
    ("vercre-holder", "C07 C09 C12 C14 C15"), ("vercre-issuer", "C01 C02 C03 C04 C05 C06 C07 C12 C13 C15"),
    ("vercre-verifier", "C01 C02 C08 C09 C12 C13 C15"), ("crates/core/src/urlencode", "C10 C12 C13"),
    ("crates/core", "C03 C10 C12 C15 C07"), ("crates/macros", "C16"), ("crates/dif-exch", "C08 C09 C10 C11 C12"),
    ("crates/openid", "C03 C07 C09 C10 C12 C13 C14 C16"), ("crates/iso-mdl", "C04 C12"),
    ("crates/w3c-vc", "C04 C05 C08 C09 C10 C12 C14"),
]

def skipped(file):
    for pre, props in FOR:
        if file.startswith(pre):
            return ",".join(f"C{k:02}" for k in range(1, 17) if f"C{k:02}" not in props)
    return ""


def run(lst, out, n="1500", skip=""):
    env = dict(os.environ, VERCRE_REPO="/tmp/mw/repo", RUSTUP_TOOLCHAIN="nightly-2024-10-18",
               CARGO_TARGET_DIR="/tmp/mw/target", VERIF_BUILD="/tmp/mw/build", CARGO_NET_OFFLINE="true",
               VERIF_REPLAYS="/tmp/mw/rp", VERIF_EVIDENCE="/tmp/mw/ev")
    done = set()
    if os.path.exists(out):
        done = {json.dumps({k: v for k, v in json.loads(l).items() if k != "result"}, sort_keys=True) for l in open(out)}
    for l in open(lst):
        m = json.loads(l)
        if json.dumps(m, sort_keys=True) in done:
            continue
        p = f"/tmp/mw/repo/{m['file']}"
        text = open(p).read()
        lines = text.split("\n")
        k = m["old"].count("\n") + 1
        i = m["line"] - 1
        if "\n".join(lines[i:i + k]) != m["old"]:
            res = "NO MATCH"
        else:
            open(p, "w").write("\n".join(lines[:i] + m["new"].split("\n") + lines[i + k:]))
            try:
                subprocess.run(["python3", "/tmp/mw/verif/build/gen.py"], env=env, check=True)
                b = subprocess.run(["cargo", "build", "--offline", "-q", "--features", "vsim/macros"], cwd="/tmp/mw/build/ws",
                                   env=env, capture_output=True, text=True)
                if b.returncode:
                    res = "NOT BUILT"
                else:
                    try:
                        r = subprocess.run(["/tmp/mw/target/debug/vsim", "kill", n, skip or skipped(m["file"])], env=env, capture_output=True, text=True, timeout=900)
                        res = (r.stdout.strip().split("\n") or [""])[-1] if r.returncode == 0 else f"KILLED exit {r.returncode}"
                    except subprocess.TimeoutExpired:
                        res = "KILLED hang"
            finally:
                open(p, "w").write(text)
        with open(out, "a") as f:
            f.write(json.dumps(dict(m, result=res[:400])) + "\n")

if sys.argv[1] == "list":
    fs = [f"{SRC}/{f}" for f in sys.argv[2:]] or files()
    for f in fs:
        for m in mutants(f):
            print(json.dumps(m))
else:
    run(*sys.argv[2:])
