#!/usr/bin/env python3
"""mkdemo.py ID PROPERTY KIND NEEDS BREAKS < main.rs : writes demo.sh, main.rs, meta.json of a planted bug (patch.diff = current git diff of /repo, then undone)"""
import sys, os, json, subprocess
i, prop, kind, needs, breaks = sys.argv[1:6]; d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
if diff.strip(): open(d + "/patch.diff", "wb").write(diff); subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
open(d + "/main.rs", "w").write(sys.stdin.read())
K = {"hu": ("handles-utils", 'build = "/repo/pallets/handles/src/handles-utils/build.rs"', "pallets/handles/src/handles-utils/src/lib.rs", 'unicode-normalization = { version = "0.1.22", default-features = false }\noorandom = "11.1.3"\nphf = { version = "0.11", default-features = false, features = ["macros"] }\ntwox-hash = { version = "1.6.3", default-features = false, features = ["digest_0_10"] }\n[features]\ndefault = ["std"]\nstd = ["unicode-normalization/std"]', ""),
     "ch": ("common-helpers", "", "common/helpers/src/lib.rs", 'apache-avro = { version = "=0.14.0", default-features = false, features = ["snappy"] }\nthiserror = "1"', 'apache-avro = { version = "=0.14.0", default-features = false, features = ["snappy"] }'),
     "co": ("cli-opt", "", "node/cli-opt/src/lib.rs", 'clap = { version = "4.2.5", features = ["derive"] }', 'clap = { version = "4.2.5", features = ["derive"] }')}
name, build, lib, deps, ddeps = K[kind]
link = ' ln -s /repo/pallets/handles/src/handles-utils/src $W/w/src;' if kind == 'hu' else ''
open(d + "/demo.sh", "w").write(f'''#!/bin/bash
D=$(dirname "$(readlink -f "$0")"); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.76.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$W/t RUSTC_WRAPPER=
mkdir -p $W/w $W/d/src;{link} cp $D/main.rs $W/d/src/main.rs; cp /opt/vp/partial/ws/Cargo.lock $W/Cargo.lock 2>/dev/null
cat > $W/Cargo.toml <<X
[workspace]
members = ["w", "d"]
resolver = "2"
X
cat > $W/w/Cargo.toml <<X
[package]
name = "{name}"
version = "0.0.0"
edition = "2021"
{build}
[lib]
path = "/repo/{lib}"
[dependencies]
{deps}
X
cat > $W/d/Cargo.toml <<X
[package]
name = "d"
version = "0.0.0"
edition = "2021"
[dependencies]
{name} = {{ path = "../w" }}
{ddeps}
X
cd $W && cargo run -q --offline -p d
''')
