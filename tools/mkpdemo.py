#!/usr/bin/env python3
"""mkpdemo.py ID PROPERTY HX NEEDS BREAKS < main-fn.rs : a planted bug in a pallet or the runtime.
patch.diff = git diff of $WT (default /repo); sim.tgz = the stand-ins for Substrate the demo compiles /repo's pallet with; main.rs = set-up of the pallet (from hx/HX) and the demo's main"""
import sys, os, json, subprocess, re, shutil, tempfile
i, prop, hx, needs, breaks = sys.argv[1:6]; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
wt = os.environ.get("WT", "/repo")
diff = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE).stdout
if diff.strip(): open(d + "/patch.diff", "wb").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
src = open(f"{V}/sim/hx/{hx}/src/main.rs").read()
m = re.search(r"sym::harnesses! ?\{", src); k = m.end(); n = 1
while n:
    t = re.compile(r"""//[^\n]*|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])'|.""", re.S).match(src, k).group(); k += len(t); n += {"{": 1, "}": -1}.get(t, 0)
src = src[:m.start()] + src[k:]
assert "sym::harnesses!" not in src
src = "#![allow(unused, static_mut_refs, deprecated)]\n" + "".join(l for l in src.splitlines(True) if not l.startswith("#![allow"))
src = re.sub(r"^(#!\[allow.*\n)((?://!.*\n)+)", r"\2\1", src)
open(d + "/main.rs", "w").write(src + "\n// ---- the demonstration\n" + sys.stdin.read())
t = tempfile.mkdtemp(); os.makedirs(t + "/sim/hx/demo")
for x in ["shims", "real", "rt", "sym"]: shutil.copytree(f"{V}/sim/{x}", f"{t}/sim/{x}")
for x in ["Cargo.toml", "Cargo.lock"]: shutil.copy(f"{V}/sim/{x}", f"{t}/sim/{x}")
shutil.copytree(f"{V}/sim/hx/{hx}", f"{t}/sim/hx/demo", dirs_exist_ok=True); os.remove(t + "/sim/hx/demo/src/main.rs")
if "../runtime" in open(f"{V}/sim/hx/{hx}/Cargo.toml").read(): shutil.copytree(f"{V}/sim/hx/runtime", f"{t}/sim/hx/runtime")
subprocess.run(["tar", "--sort=name", "--mtime=2020-01-01", "--owner=0", "--group=0", "-czf", d + "/sim.tgz", "-C", t, "sim"], check=True); shutil.rmtree(t)
open(d + "/demo.sh", "w").write('''#!/bin/bash
# compiles /repo's pallet with stand-ins for Substrate (sim.tgz), runs main.rs on it
D=$(dirname "$(readlink -f "$0")"); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.76.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$W/t RUSTC_WRAPPER= RUSTFLAGS="--cap-lints allow"
tar xzf "$D/sim.tgz" -C "$W" && cp "$D/main.rs" "$W/sim/hx/demo/src/main.rs" || exit 2
cd "$W/sim" && cargo run -q --offline -p hx-HX
'''.replace("HX", hx))
