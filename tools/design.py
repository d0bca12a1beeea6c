#!/usr/bin/env python3
"""writes DESIGN.md from design_head.md, design_tail.md, props.py, checks.json, known-findings.txt, seeded/ and evidence/"""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import props
C = json.load(open(V + "/checks.json")); T = V + "/tools/"
def txt(x): return "; ".join(x) if isinstance(x, list) else str(x)
G = [("H", "Handles"), ("C", "Common helpers"), ("O", "Command line"), ("P", "Capacity"), ("T", "Time release"), ("G", "Messages"), ("K", "Schemas"), ("N", "Primitives"),
     ("S", "Stateful storage"), ("M", "MSA"), ("X", "Paying with capacity"), ("Y", "Passkey"), ("R", "Runtime"), ("W", "Wiring")]
out = [open(T + "design_head.md").read(), "## 5. Properties\n"]
out.append("Times are wall seconds of the quick check on this sandbox (8 cores), the build not counted. *Asserted* lists the assertions as the harnesses name them.\n")
for g, name in G:
    out.append(f"### {name}\n")
    for q in props.P:
        i = q["id"]
        if i[0] != g: continue
        out.append(f"**{i} — {q['title']}.** {q['statement']}\n")
        if i not in C: out.append("*Not applicable:* see MANIFEST.json.\n"); continue
        c = C[i]; e = None
        try: e = json.load(open(f"{V}/evidence/{i}.json"))
        except OSError: pass
        out.append(f"* anchored in: {', '.join('`%s`' % f for f in q['anchors']['files'])}")
        if e:
            hs = e["coverage"]["harnesses"]; lab = []
            for h in hs.values():
                for l in h.get("assertions", {}):
                    if l not in lab: lab.append(l)
            out.append(f"* harnesses ({', '.join('`%s`' % p for p in c['packages'])}): {', '.join(f'`{h}`' for h in sorted(hs))}")
            out.append(f"* asserted: {'; '.join(sorted(lab))}")
        out.append(f"* bounds: {txt(c['bounds'])}")
        out.append(f"* outside: {txt(c['outside'])}")
        if e: cv = e["coverage"]; out.append(f"* cost: {cv['states']} paths, {cv['queries']} queries, {e['wall_s']:.0f} s\n")
        else: out.append("")
tail = open(T + "design_tail.md").read(); fx = []; kn = []
for l in open(V + "/known-findings.txt"):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m: fx.append("| %s | %s | %s |" % m.groups())
    m = re.match(r"KNOWN-FINDING: property=(\w+) \[(\w+)\] (.*)", l)
    if m: kn.append("| %s | `%s` | %s |" % tuple(x.replace("|", "\\|") for x in m.groups()))
bg = []
caught = json.load(open(T + "caught.json"))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    n = d.split("/")[-2]; m = json.load(open(d)); f = re.findall(r"^\+\+\+ b/(.*)$", open(os.path.dirname(d) + "/patch.diff").read(), re.M)
    bg.append(f"| {n} | {m['property']} | {m['what_it_breaks']} (`{'`, `'.join(f)}`); needs {m['needs']} | {caught.get(n, '')} |")
mut = open(T + "mutation.md").read() if os.path.exists(T + "mutation.md") else ""
for k, v in (("@@FIXED@@", "\n".join(fx)), ("@@KNOWN@@", "\n".join(kn)), ("@@BUGS@@", "\n".join(bg)), ("@@MUT@@", mut)): tail = tail.replace(k, v)
open(V + "/DESIGN.md", "w").write("\n".join(out) + tail)
