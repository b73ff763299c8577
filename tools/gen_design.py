#!/usr/bin/env python3
"""Writes DESIGN.md: gen_design.py RUNNER (a runner built from the current tree)."""
import json, os, re, subprocess, sys, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(here, "tools")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
tech = json.load(open(os.path.join(T, "techniques.json")))
out = open(os.path.join(T, "design_head.md")).read()
sc = {}
for l in subprocess.run([sys.argv[1], "-list"], stdout=subprocess.PIPE, check=True).stdout.decode().splitlines():
    m = re.match(r"(\S+) (\S+) bounds=\[(-?\d+) (-?\d+)\]([^:]*): (.*)", l)
    sc.setdefault(m[1], []).append((m[2], m[3], m[4], m[5], m[6]))
for p in props:
    i = p["id"]
    out += f"### {i} {p['title']}\n\n{p['statement']}\n\n*Method*: {tech[i]['technique']}.\n*Bounds*: {tech[i]['note']}.\n"
    out += f"*Why tests can't*: {p['why_tests_cant']}\n\n"
    for n, q, t, fl, d in sc.get(i, []):
        b = "" if q == t == "0" and not fl else f" ({q}/{t}{fl.replace(',', ', ')})"
        out += f"* `{n}`{b}: {d}\n"
    out += "\n"
out += "## 4. Planted bugs and the checks that catch them\n\n| bug | property | needs |\n|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    out += f"| {f.split('/')[-2]} | {d['property']} | {d['needs']} |\n"
missed = os.path.join(T, "missed.txt")
out += "\nAll of them are caught by the quick check of the property named" + (
    ", except: " + open(missed).read().strip() if os.path.exists(missed) else "") + ".\n"
out += open(os.path.join(T, "design_tail.md")).read()
open(os.path.join(here, "DESIGN.md"), "w").write(out)
