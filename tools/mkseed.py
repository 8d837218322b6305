#!/usr/bin/env python3
"""developer helper: mkseed.py ID PROP  (reads /tmp/seed/ID/{main.rs,patch.diff,meta}) -> /verif/seeded/ID"""
import sys, os, json, shutil
sid, prop = sys.argv[1], sys.argv[2]
src = "/tmp/seed/" + sid
dst = "/verif/seeded/" + sid
os.makedirs(dst, exist_ok=True)
shutil.copy(src + "/main.rs", dst + "/main.rs")
shutil.copy(src + "/patch.diff", dst + "/patch.diff")
needs, breaks = open(src + "/meta").read().strip().split("\n", 1)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks.strip()}, open(dst + "/meta.json", "w"), indent=1)
toml = open("/verif/falsify/Cargo.toml").read().replace('name = "falsify"', 'name = "demo"').replace("/repo/", "@REPO@/")
toml = "".join(l for l in toml.splitlines(True) if not l.startswith("vxkani"))
toml = toml.split("[profile.release]")[0] + "[profile.release]\nopt-level = 1\npanic = \"unwind\"\noverflow-checks = true\nincremental = false\n"
open(dst + "/Cargo.toml.in", "w").write(toml)
lock = open("/verif/falsify/Cargo.lock").read().replace('name = "falsify"', 'name = "demo"')
import re
lock = re.sub(r'\[\[package\]\]\nname = "vxkani"\n(?:[^\n]+\n)*\n?', "", lock).replace(' "vxkani",\n', "")
open(dst + "/Cargo.lock.in", "w").write(lock)
open(dst + "/demo.sh", "w").write('''#!/bin/bash
# builds main.rs against the crates of the repository in the current directory and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src" "$W/home"
cp "$D/main.rs" "$W/src/main.rs"
sed "s#@REPO@#$R#" "$D/Cargo.toml.in" > "$W/Cargo.toml"
cp "$D/Cargo.lock.in" "$W/Cargo.lock"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
cd "$W"
cargo build --offline --release --target-dir "$W/target" > "$W/build.log" 2>&1 || { tail -30 "$W/build.log"; exit 3; }
STRONGHOLD="$W/home" XDG_DATA_HOME="$W/home" TMPDIR="$W/home" timeout 120 "$W/target/release/demo"
''')
os.chmod(dst + "/demo.sh", 0o755)
