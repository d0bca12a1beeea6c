#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property by symbolic execution of /repo's current code.

Builds rsym (the executor) and the harness crate of the property (which compiles /repo's sources),
runs every harness of the property, replays samples and every counterexample on the natively compiled
harness, writes evidence/<PROPERTY>.json.  Exit 0 held, 1 violation, 2 no answer."""
import os, sys, shutil, json, subprocess, time, re, concurrent.futures, hashlib, fcntl
V = os.path.dirname(os.path.abspath(__file__))
B = os.environ.get("VERIF_BUILD", os.path.join(V, ".build"))
CFG = json.load(open(os.path.join(V, "checks.json")))

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def die(msg):
    print("ERROR: " + msg); sys.exit(2)

def build_rsym():
    src = os.path.join(V, "rsym", "rsym.cpp"); out = os.path.join(B, "rsym"); st = out + ".sha"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == h: return out
    r = sh(["bash", os.path.join(V, "rsym", "build.sh"), out])
    if r.returncode: die("rsym does not build\n" + r.stdout[-3000:])
    open(st, "w").write(h); return out

def forget_stale():
    """cargo goes by file times; when /repo's contents are not those of the last build, build its crates anew"""
    h = hashlib.sha256()
    for d, ds, fs in os.walk("/repo"):
        ds[:] = sorted(x for x in ds if x not in (".git", "target", "node_modules"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")) or "build" in f:
                q = os.path.join(d, f)
                if os.path.isfile(q): h.update(q.encode() + b"\0" + open(q, "rb").read())
    st = os.path.join(B, "repo.sha"); h = h.hexdigest()
    if os.path.exists(st) and open(st).read() == h: return
    fp = os.path.join(B, "target", "release", ".fingerprint")
    local = set()
    for k in ("real", "hx"):
        for n in os.listdir(os.path.join(V, "sim", k)):
            try: local.add(re.search(r'(?m)^name *= *"([^"]+)"', open(os.path.join(V, "sim", k, n, "Cargo.toml")).read()).group(1))
            except (OSError, AttributeError): pass
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if n.rpartition("-")[0] in local: shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    open(st, "w").write(h)

def build_pkg(pkg):
    bc, bn = os.path.join(B, pkg + ".bc"), os.path.join(B, pkg + ".bin")
    for f in (bc, bn):
        if os.path.exists(f): os.remove(f)
    r = sh(["bash", os.path.join(V, "sim", "bc.sh"), pkg, os.path.join(B, "target"), bc, bn])
    if r.returncode or not os.path.exists(bc): die(f"harness crate {pkg} does not build from /repo\n" + r.stdout[-6000:])
    return bc, bn

def covers_of(pkg, h):
    """reachability marks written in the harness body: each must be reached"""
    s = open(os.path.join(V, "sim", "hx", pkg[3:], "src", "main.rs")).read()
    m = re.search(r"^fn %s\(\) \{(.*?)^(?=fn |\}\s*$|/// )" % re.escape(h), s, re.S | re.M)
    if not m: m = re.search(r"^fn %s\(\) \{([^\n]*)" % re.escape(h), s, re.M)
    return sorted(set(re.findall(r'cover\("([^"]*)"\)', m.group(1)))) if m else []

def replay(bn, h, inputs, d, tag):
    p = os.path.join(d, f"{h}.{tag}.replay")
    with open(p, "w") as f:
        for n, x in inputs: f.write(f"{n.replace(' ', '_')} {x}\n")
    try: r = subprocess.run([bn, h], env=dict(os.environ, RSYM_REPLAY=p), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    except subprocess.TimeoutExpired: return -99, "native run does not end", p
    return r.returncode, r.stderr.decode(errors="replace")[-600:], p

def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); only = None
    for i, a in enumerate(sys.argv):
        if a == "--tier": tier = sys.argv[i + 1]
        if a == "--only": only = sys.argv[i + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time(); c = CFG[prop]; os.makedirs(B, exist_ok=True); ev = os.path.join(V, "evidence"); os.makedirs(ev, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    rsym = build_rsym(); forget_stale(); jobs = []
    for pkg in c["packages"]:
        bc, bn = build_pkg(pkg)
        names = sh([bn, "--list"]).stdout.split()
        pre = prop.lower() + "_"
        for n in names:
            if not n.startswith(pre) or (only and only not in n): continue
            if n.startswith(pre + "t_") and tier == "quick": continue
            jobs.append((pkg, bc, bn, n))
    if not jobs: die("no harness for " + prop)
    budget = (780 if tier == "quick" else 20000) - (time.time() - t0)
    slow = c.get("slow", []); jobs.sort(key=lambda j: (slow.index(j[3]) if j[3] in slow else 99))
    out = os.path.join(B, "out"); os.makedirs(out, exist_ok=True); start = time.time()
    def run(j):
        pkg, bc, bn, n = j; o = os.path.join(out, n + ".json")
        if os.path.exists(o): os.remove(o)
        left = budget - (time.time() - start)
        if left < 5: return j, None, "no time left"
        r = sh([rsym, "--time", str(int(left)), "-o", o, bc, n])
        if not os.path.exists(o): return j, None, f"executor failed ({r.returncode}): {r.stdout[-500:]}"
        d = json.load(open(o))
        # native replay of sampled paths: the same inputs must complete without a failed assertion
        bad = []; ok = 0
        kf = n.startswith(prop.lower() + "_kf_")
        if d["result"] == "holds":
            for k, smp in enumerate(d["samples"]):
                rc, err, p = replay(bn, n, smp, out, f"s{k}")
                if rc == 0: ok += 1
                else: bad.append(f"sample {k}: native exit {rc} {err[-200:]}")
        d["native_ok"] = ok; d["native_bad"] = bad
        return j, d, ""
    with concurrent.futures.ThreadPoolExecutor(8) as ex: res = list(ex.map(run, jobs))
    viol = 0; err = []; tot = dict(paths=0, steps=0, queries=0, solver_s=0.0, asserts=0, forks=0); traces = 0; samples = []; per = {}; fns = set(); rc = 0; known = 0
    known_file = open(os.path.join(V, "known-findings.txt")).read().splitlines() if os.path.exists(os.path.join(V, "known-findings.txt")) else []
    for (pkg, bc, bn, n), d, e in res:
        if d is None: err.append(f"{n}: {e}"); continue
        for k in tot: tot[k] += d[k]
        per[n] = dict(result=d["result"], paths=d["paths"], instructions=d["steps"], queries=d["queries"], solver_s=d["solver_s"], wall_s=d["wall_s"], assertions=d["assert_labels"], reached=d["covers"], replayed=d["native_ok"])
        fns.update(f for f in d["functions"] if not re.match(r"^(_?\$?<?(core|alloc|std|sym)\b|_\$LT\$(core|alloc|std)|__rust|rust_)", f))
        traces += d["native_ok"]
        if d["samples"] and len(samples) < 12: samples.append({"harness": n, "inputs": [list(x) for x in d["samples"][-1]][:40]})
        kf = n.startswith(prop.lower() + "_kf_")
        if d["result"] == "violation":
            v = d["violations"][0]; code, out_, path = replay(bn, n, v["inputs"], ev if not kf else out, "cex")
            failed = code in (99, 101, 134, -6, -4, -11) or code == -99
            if not failed: err.append(f"{n}: counterexample ({v['kind']}: {v['label']}) does not reproduce natively (exit {code} {out_[-200:]})"); continue
            if kf:
                lines = [l for l in known_file if l.startswith(f"KNOWN-FINDING: property={prop} ") and f"[{n}]" in l]
                if not lines: err.append(f"{n}: finding not listed in known-findings.txt"); continue
                print(lines[0]); known += 1; continue
            viol += 1
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  harness {n}: {v['kind']}: {v['label']}; inputs {v['inputs'][:12]}; native exit {code}: {out_.strip()[-300:]}")
            print(f"  reproduce: RSYM_REPLAY={path} {bn} {n}")
        elif d["result"] == "holds":
            if d["native_bad"]: err.append(f"{n}: native replay disagrees with the symbolic path: {d['native_bad'][:2]}")
            if kf: print(f"note: {n}: the finding no longer occurs"); continue
            miss = [x for x in covers_of(pkg, n) if x not in d["covers"]]
            if miss: err.append(f"{n}: reachability mark not reached: {miss}")
            if not d["asserts"]: err.append(f"{n}: no assertion reached")
        else: err.append(f"{n}: no verdict: {d['reason'][:300]}")
    e = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
        coverage=dict(states=tot["paths"], transitions=tot["steps"], traces_validated_against_impl=traces, samples=samples or [{"harness": k} for k in per][:1],
            queries=tot["queries"], solver_s=round(tot["solver_s"], 2), assertions_discharged=tot["asserts"], forks=tot["forks"], harnesses=per, functions_encoded=sorted(fns)[:400],
            bounds=c["bounds"], outside=c.get("outside", ""), known_findings=known,
            explanation="states = feasible paths explored to their end, transitions = LLVM instructions executed symbolically; every path of every harness within the bounds is explored, every assertion is an unsat query on its path"),
        assumptions=c.get("assumptions", []) + CFG["_common_assumptions"], violations=viol, wall_s=round(time.time() - t0, 2))
    json.dump(e, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    print(f"{prop} [{tier}] harnesses={len(jobs)} paths={tot['paths']} queries={tot['queries']} solver={tot['solver_s']:.1f}s replayed={traces} wall={time.time()-t0:.0f}s violations={viol} known={known}")
    if viol: sys.exit(1)
    if err:
        for x in err: print("ERROR: " + x)
        sys.exit(2)
main()
