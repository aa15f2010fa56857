#!/usr/bin/env python3
"""mkbug.py spec.py: a spec sets ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN (rust demo using the kit) or DEMO (shell)."""
import sys, os, subprocess, json
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = f"/verif/seeded/{ns['ID']}"
os.makedirs(d, exist_ok=True)
def git(*a): return subprocess.run(["git", "-C", "/repo", *a], check=True, capture_output=True, text=True).stdout
assert not git("status", "--short").strip(), "repo not clean"
try:
    for f, old, new in ns["EDITS"]:
        p = f"/repo/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    open(f"{d}/patch.diff", "w").write(git("diff"))
finally:
    git("checkout", "--", ".")
json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
if "MAIN" in ns:
    open(f"{d}/main.rs", "w").write("mod kit;\n#[allow(unused_imports)]\nuse kit::*;\n#[allow(unused_imports)]\nuse serde_json::{json, Value};\n" + ns["MAIN"])
    subprocess.run(["/verif/tools/seed.sh", ns["ID"]], check=True)
else:
    open(f"{d}/demo.sh", "w").write(ns["DEMO"]); os.chmod(f"{d}/demo.sh", 0o755)
