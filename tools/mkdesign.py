#!/usr/bin/env python3
"""Writes DESIGN.md: the text below plus the tables made from seeded/*/meta.json and known_findings.txt."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
body = open(os.path.join(root, "tools", "design.txt")).read()
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(os.path.join(root, "properties.jsonl"))}
body = re.sub(r"^### (C\d\d)$", lambda m: f"### {m[1]} {titles[m[1]]}", body, flags=re.M)
rows = []
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
table = "| change | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows)
known = [l.strip() for l in open(os.path.join(root, "known_findings.txt")) if l.startswith(("finding:", "fixed:"))]
body = body.replace("@SEEDED@", table).replace("@KNOWN@", "\n".join(f"* {l}" for l in known if l.startswith("finding")))
body = body.replace("@NFIXED@", str(sum(l.startswith("fixed") for l in known))).replace("@FIXED@", "\n".join(
    "* %s %s: %s" % re.match(r"fixed: property=(\S+) (\S+) (.*)", l).groups() for l in known if l.startswith("fixed")))
open(os.path.join(root, "DESIGN.md"), "w").write(body)
