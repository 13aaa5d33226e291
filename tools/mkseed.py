"""mkseed.py ID PROPERTY FILE: reads from stdin  <<<old ... === ... >>>new blocks, then --demo-- demo.rs, --needs-- text, --breaks-- text."""
import os, re, subprocess, sys, json, tempfile, shutil
DEMO = r'''#!/bin/bash
# Builds demo.rs against /repo's crates in a scratch folder and runs it.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 9
trap 'rm -rf -- "$d"' EXIT
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$d/target
python3 - "$d" <<'P' || exit 9
import os, re, sys
d = sys.argv[1]
members = ["crypto", "futures_utils", "partial_struct", "protected", "reputation", "storage"]
for m in members:
    t = open(f"/repo/{m}/Cargo.toml").read()
    t = re.sub(r'(?m)^rocksdb\s*=.*\bgit\b.*\n', "", t)
    t = re.sub(r'"(dep:)?rocksdb"(,\s*)?', "", t)
    t = re.sub(r'(?m)^workspace\s*=.*\n', "", t)
    t = re.sub(r'(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)', "", t)
    t = re.sub(r'(?ms)^\[\[bench\]\].*?(?=^\[|\Z)', "", t)
    if re.search(r"(?m)^\[lib\]", t):
        t = re.sub(r"(?m)^\[lib\]\n", f'[lib]\npath = "/repo/{m}/src/lib.rs"\n', t)
    else:
        t += f'\n[lib]\npath = "/repo/{m}/src/lib.rs"\n'
    t = re.sub(r'(?m)^(serde = \{ version = "[^"]*",) optional', r'\1 features = ["derive"], optional', t)
    os.makedirs(f"{d}/{m}")
    open(f"{d}/{m}/Cargo.toml", "w").write(t)
open(f"{d}/Cargo.toml", "w").write("[workspace]\nresolver = \"3\"\nmembers = [%s]\n" % ", ".join(f'"{m}"' for m in members + ["demo"]))
os.makedirs(f"{d}/demo/src")
open(f"{d}/demo/Cargo.toml", "w").write("""[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
@DEPS@
""")
P
cp "$here/demo.rs" "$d/demo/src/main.rs"

cd "$d" && timeout 280 cargo run --offline -q -p demo
'''
DEPS = {"rep": 'witnet_reputation = { path = "../reputation", features = ["serde"] }\nserde_json = "1"\nbincode = "1"', "crypto": 'witnet_crypto = { path = "../crypto", features = ["with-serde"] }\nwitnet_protected = { path = "../protected", features = ["with-serde"] }\nsecp256k1 = { version = "0.28.1", features = ["global-context", "recovery"] }\nhex = "0.4"',
        "store": 'witnet_storage = { path = "../storage" }', "prot": 'witnet_protected = { path = "../protected", features = ["with-serde"] }\nserde_json = "1"\nbincode = "1"',
        "fut": 'futures_utils = { path = "../futures_utils", package = "witnet_futures_utils" }\nfutures = "0.3"', "ps": 'partial_struct = { path = "../partial_struct" }\nserde = { version = "1", features = ["derive"] }\nserde_json = "1"'}
def main():
    id, prop, kind, file = sys.argv[1:5]
    t = sys.stdin.read()
    edits, rest = t.split("--demo--\n")
    demo, rest = rest.split("--needs--\n")
    needs, breaks = rest.split("--breaks--\n")
    d = tempfile.mkdtemp(prefix="mkseed")
    subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
    for blk in re.findall(r"<<<\n(.*?)\n>>>\n", edits, re.S):
        f = file
        m = re.match(r"@(\S+)\n", blk)
        if m: f = m.group(1); blk = blk[m.end():]
        old, new = (blk + "\n").split("\n===\n") if "\n===\n" in blk + "\n" else (blk, "")
        new = new.rstrip("\n")
        p = f"{d}/r/{f}"; s = open(p).read()
        assert s.count(old) == 1, (s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", d + "/r", "diff"], capture_output=True, text=True).stdout
    o = f"/verif/seeded/{id}"; os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff); open(o + "/demo.rs", "w").write(demo)
    open(o + "/demo.sh", "w").write(DEMO.replace("@DEPS@", DEPS[kind])); os.chmod(o + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs.strip(), "what_it_breaks": breaks.strip()}, open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
    print(id, len(diff.splitlines()))
main()
