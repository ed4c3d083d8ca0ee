#!/usr/bin/env python3
"""writes SPACES.md: every space of every property, bounds, and sizes in both tiers"""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "target/debug/mc")
run = lambda *a: subprocess.run([B, *a], capture_output=True, text=True).stdout.splitlines()
out = ["# Spaces explored: **name** (size quick / size thorough) bounds"]
tot = [0, 0]
for i in run("--list"):
    q = {l.split()[1]: l for l in run("--spaces", i, "--tier", "quick")}
    t = {l.split()[1]: l for l in run("--spaces", i, "--tier", "thorough")}
    out += ["", "## " + i, ""]
    for k in list(q) + [k for k in t if k not in q]:
        l = (q.get(k) or t[k])
        a = int(q[k].split()[0]) if k in q else 0
        b = int(t[k].split()[0]) if k in t else 0
        tot[0] += a; tot[1] += b
        out.append(f"* **{k}** ({a} / {b}) {l.split(None, 2)[2]}")
out[0] += f"\n\nTotal: {tot[0]} cases quick, {tot[1]} thorough."
open(os.path.join(V, "SPACES.md"), "w").write("\n".join(out) + "\n")
