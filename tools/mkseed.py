"""tools/mkseed.py ID: turns the uncommitted change in /repo into /verif/seeded/ID (patch.diff, demo.sh, meta.json)
and undoes it.  stdin: JSON {property, needs, what_it_breaks, features, kind, files: {name: text}}."""
import json, os, subprocess, sys
ID = sys.argv[1]
R = os.environ.get("SEED_REPO", "/repo")
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + f"/seeded/{ID}"
m = json.load(sys.stdin) if len(sys.argv) < 3 else json.load(open(sys.argv[2]))
os.makedirs(d, exist_ok=True)
patch = subprocess.check_output(["git", "-C", R, "diff"], text=True)
if patch:
    open(d + "/patch.diff", "w").write(patch)
    subprocess.check_call(["git", "-C", R, "checkout", "--", "."])
for n, t in m.pop("files", {}).items():
    open(f"{d}/{n}", "w").write(t)
feats = json.dumps(m.pop("features", ["std", "alloc"]))
deps = m.pop("deps", "")
run = m.pop("run", 'cargo run -q --offline $PROFILE')
lib = m.pop("lib", "")
if run != "custom":
  open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# cwd: the repository. Builds main.rs (beside this file) against it in a scratch folder and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
export RUSTUP_TOOLCHAIN=1.72.1 RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$T/target CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTC_WRAPPER
mkdir -p $T/lib $T/app/src
for f in src build.rs README.md; do ln -s $R/$f $T/lib/$f; done
python3 - $R/Cargo.toml > $T/lib/Cargo.toml <<'P'
import re, sys
t = open(sys.argv[1]).read()
t = re.sub(r"(?ms)^\\[dependencies\\.napi\\]\\n.*?(?=^\\[|\\Z)", "", t)
t = re.sub(r"(?ms)^js = \\[.*?^\\]\\n", "", t)
for n in ("workspace", "dev-dependencies", "lints.rust"):
    t = re.sub(r"(?ms)^\\[%s\\]\\n.*?(?=^\\[|\\Z)" % re.escape(n), "", t)
t = re.sub(r"(?ms)^\\[\\[test\\]\\]\\n.*?(?=^\\[|\\Z)", "", t)
print(re.sub(r"(?m)^exclude = .*\\n", "", t) + "\\n[workspace]")
P
cat > $T/app/Cargo.toml <<'P'
[package]
name = "demo"
version = "0.0.1"
edition = "2021"
{lib}
[dependencies]
safer-ffi = {{ path = "../lib", default-features = false, features = {feats} }}
{deps}
[profile.dev]
debug = 0
[workspace]
P
cp /opt/vp/ws/Cargo.lock $T/app/Cargo.lock
for f in "$D"/*.rs; do cp "$f" $T/app/src/; done
for f in "$D"/*.c; do [ -e "$f" ] && cp "$f" $T/app/; done
cd $T/app
{run}
''')
    
os.chmod(d + "/demo.sh", 0o755)
json.dump({k: m[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
