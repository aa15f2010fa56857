"""Lays out, in /verif/.build, an offline cargo workspace that contains *every* library crate of vercre.

* .build/vendor : a cargo directory source, unpacked from the crate archives in the local cargo caches
  (the two caches of this sandbox, mixed freely; nothing is downloaded).
* .build/ws     : the workspace. Sources are symlinks into /repo, manifests are derived from /repo's at each
  run with dev-dependencies dropped and the dependencies that do not exist in this sandbox (two git
  repositories and four registry crates) replaced by the stand-ins under /verif/stubs.

Nothing is written in /repo.
"""

import glob
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERCRE_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", f"{VERIF}/.build")
WS, VENDOR = f"{OUT}/ws", f"{OUT}/vendor"

#: registry crates, exact versions
CRATES = """
aho-corasick-1.1.3 android-tzdata-0.1.1 android_system_properties-0.1.5 anyhow-1.0.89 autocfg-1.4.0 base64ct-1.6.0
block-buffer-0.10.4 bumpalo-3.16.0 cc-1.1.30 cfg-if-1.0.0 chrono-0.4.38 core-foundation-sys-0.8.7 cpufeatures-0.2.14
crypto-common-0.1.6 digest-0.10.7 fastrand-2.1.1 generic-array-0.14.7  iana-time-zone-0.1.61
iana-time-zone-haiku-0.1.2 inventory-0.3.15 itoa-1.0.11 js-sys-0.3.72 libc-0.2.161 log-0.4.22 memchr-2.7.4
minimal-lexical-0.2.1 nom-7.1.3 num-traits-0.2.19 once_cell-1.20.2 percent-encoding-2.3.1 proc-macro2-1.0.88
quote-1.0.37 regex-1.11.0 regex-automata-0.4.8 regex-syntax-0.8.5 ryu-1.0.18 serde-1.0.210 serde_derive-1.0.210
serde_json-1.0.129 serde_json_path-0.6.7 serde_json_path_core-0.1.6 serde_json_path_macros-0.1.4
serde_json_path_macros_internal-0.1.1 sha2-0.10.8 shlex-1.3.0 syn-2.0.79 thiserror-1.0.64 thiserror-impl-1.0.64
typenum-1.17.0 unicode-ident-1.0.13 version_check-0.9.5 wasi-0.11.0+wasi-snapshot-preview1 wasm-bindgen-0.2.95
wasm-bindgen-backend-0.2.95 wasm-bindgen-macro-0.2.95 wasm-bindgen-macro-support-0.2.95 wasm-bindgen-shared-0.2.95
windows-core-0.52.0 windows-targets-0.52.6 windows_aarch64_gnullvm-0.52.6 windows_aarch64_msvc-0.52.6
windows_i686_gnu-0.52.6 windows_i686_gnullvm-0.52.6 windows_i686_msvc-0.52.6 windows_x86_64_gnu-0.52.6
windows_x86_64_gnullvm-0.52.6 windows_x86_64_msvc-0.52.6
adler2-2.0.1 bitvec-1.1.1 ciborium-0.2.2 ciborium-io-0.2.2 ciborium-ll-0.2.2 crc32fast-1.5.0 crunchy-0.2.4
curve25519-dalek-4.1.3 curve25519-dalek-derive-0.1.1 ed25519-2.2.3 ed25519-dalek-2.1.1 flate2-1.1.1 funty-2.0.0
half-2.7.1 miniz_oxide-0.8.9 pin-project-lite-0.2.17 ppv-lite86-0.2.21 radium-0.7.0 rand-0.8.6 rand_chacha-0.3.1
rand_core-0.6.4 rustc_version-0.4.1 semver-1.0.28 signature-2.2.0 subtle-2.6.1 tap-1.0.1 tracing-0.1.44
tracing-attributes-0.1.31 tracing-core-0.1.36 urlencoding-2.1.3 valuable-0.1.1 wyz-0.5.1 zerocopy-0.8.27
zerocopy-derive-0.8.27 zeroize-1.8.1 pkcs8-0.10.2 spki-0.7.3 der-0.7.10 const-oid-0.9.6
""".split()

#: crates of /repo: directory, and whether the generated manifest keeps it
MEMBERS = [
    "crates/core", "crates/dif-exch", "crates/macros", "crates/openid", "crates/w3c-vc", "crates/status",
    "crates/iso-mdl", "vercre-issuer", "vercre-verifier", "vercre-holder",
]
#: stand-ins for what the sandbox does not have
STUBS = {
    "vercre-did": "did", "vercre-infosec": "infosec", "coset": "coset", "qrcode": "qrcode", "image": "image",
    "derive_builder": "derive_builder", "uuid": "uuid", 
}


def read(path):
    with open(path, encoding="utf-8") as f:
        return f.read()


def write(path, text):
    if not os.path.exists(path) or read(path) != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)


def link(target, path):
    if not os.path.islink(path) or os.readlink(path) != target:
        if os.path.lexists(path):
            os.remove(path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        os.symlink(target, path)


def vendor():
    stamp = f"{VENDOR}/.stamp"
    want = json.dumps(CRATES)
    if os.path.exists(stamp) and read(stamp) == want:
        return
    os.makedirs(VENDOR, exist_ok=True)
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    for c in CRATES:
        hits = sorted(glob.glob(f"{home}/registry/cache/*/{c}.crate"))
        if not hits:
            sys.exit(f"gen.py: crate archive {c} is not in the local cargo cache")
        dst = f"{VENDOR}/{c}"
        if not os.path.isdir(dst):
            subprocess.run(["tar", "xzf", hits[0], "-C", VENDOR], check=True)
        write(f"{dst}/.cargo-checksum.json", '{"files":{}}')
    # a dependency of curve25519-dalek that only another backend uses
    write(f"{VENDOR}/fiat-crypto-0.2.1/Cargo.toml",
          '[package]\nname = "fiat-crypto"\nversion = "0.2.1"\nedition = "2021"\n')
    write(f"{VENDOR}/fiat-crypto-0.2.1/src/lib.rs", "")
    write(f"{VENDOR}/fiat-crypto-0.2.1/.cargo-checksum.json", '{"files":{}}')
    # the entropy seam replaces the registry crate
    for f in ("Cargo.toml", "src/lib.rs"):
        write(f"{VENDOR}/getrandom-0.2.15/{f}", read(f"{VERIF}/stubs/getrandom/{f}"))
    write(f"{VENDOR}/getrandom-0.2.15/.cargo-checksum.json", '{"files":{}}')
    write(stamp, want)


def table(text, header, replacement):
    return re.sub(rf"(?ms)^\[{re.escape(header)}\][^\n]*\n.*?(?=^\[|\Z)", lambda m: replacement, text)


def stub_dep(m):
    """dependency line of a crate we replace by a stub -> path dependency"""
    name, rest = m.group(1), m.group(2)
    return f'{name} = {{ path = "{VERIF}/stubs/{STUBS[name]}" }}'


def workspace():
    root = read(f"{REPO}/Cargo.toml")
    members = ", ".join(f'"{m}"' for m in MEMBERS + ["sim"])
    root, n = re.subn(r"(?ms)^members\s*=\s*\[.*?\]", lambda m: f"members = [{members}]", root, count=1)
    if n != 1:
        sys.exit("gen.py: no members in /repo/Cargo.toml")
    root = re.sub(r"(?m)^exclude\s*=\s*\[\"vercre-holder/examples[^\n]*\n", "", root)
    names = "|".join(re.escape(k) for k, v in STUBS.items() if v)
    root = re.sub(rf"(?m)^({names})\s*=\s*(.+)$", stub_dep, root)
    root = table(root, "profile.release", "")
    root += """
[profile.dev]
opt-level = 1
debug = "line-tables-only"
overflow-checks = true
incremental = true

[profile.dev.package."*"]
opt-level = 3
"""
    write(f"{WS}/Cargo.toml", root)
    write(f"{WS}/.cargo/config.toml",
          '[source.crates-io]\nreplace-with = "vendored"\n\n'
          f'[source.vendored]\ndirectory = "{VENDOR}"\n\n[net]\noffline = true\n')
    for m in MEMBERS:
        man = read(f"{REPO}/{m}/Cargo.toml")
        man = table(man, "dev-dependencies", "")
        man = re.sub(rf"(?m)^({names})\s*=\s*(.+)$",
                     lambda x: x.group(0) if "workspace" in x.group(2) else stub_dep(x), man)
        # `name.workspace = true` for a stub keeps working through the root table
        man = re.sub(r"(?m)^readme\s*=.*$", "", man)
        write(f"{WS}/{m}/Cargo.toml", man)
        link(f"{REPO}/{m}/src", f"{WS}/{m}/src")
    link(f"{VERIF}/sim", f"{WS}/sim")


vendor()
workspace()
