#!/usr/bin/env python3
"""Development tool: rewrite the generated sections of DESIGN.md (properties, planted bugs)."""
import glob, json, os, re, runpy
V = os.path.dirname(os.path.abspath(__file__))
from props import PROPS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = []
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    src = open(os.path.join(V, "harness", i.lower(), i.lower() + "_test.go")).read()
    subs = re.findall(r'vk\.Sub(?:\[[^\]]*\])?\("([^"]+)",\s*(\d+),\s*(\d+),\s*(true|false)', src)
    q = PROPS[i]
    out.append("*Generated, oracle, non-trivial rule:* " + q["rule"] + ".")
    out.append("*Cases (quick / thorough):* " + ", ".join("%s %s / %s%s" % (n, a, b, " (virtual time)" if v == "true" else " (real time)") for n, a, b, v in subs) + ".")
    for a in q.get("assumptions", []):
        out.append("*Assumption:* " + a + ".")
    w = p.get("why_tests_cant") or ""
    if w:
        out.append("*Why beyond the tests:* " + w)
    out.append("")
bugs = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
for f in sorted(glob.glob(os.path.join(V, "tools", "bugspecs", "*.py"))):
    s = runpy.run_path(f)
    b = os.path.basename(f)[:-3]
    bugs.append("| %s | %s | %s | %s |" % (b, s["prop"], s["needs"].replace("|", "/"), caught.get(b, "?")))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
for tag, lines in (("properties", out), ("bugs", bugs)):
    t = re.sub(r"(<!-- begin %s -->\n).*?(<!-- end %s -->)" % (tag, tag), lambda m: m.group(1) + "\n".join(lines) + "\n" + m.group(2), t, flags=re.S)
open(p, "w").write(t)
