#!/usr/bin/env python3
"""lists every fix: commit of /repo in known_findings.jsonl (the properties come from the table below)"""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [l.rstrip("\n").split("\t") for l in open(os.path.join(ROOT, "tools", "fixes.tsv")) if l.strip()]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x09%s"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split("\t", 1)
    if not s.startswith("fix:"): continue
    hit = [m for m in MAP if m[0] == s[5:]]
    if not hit: print("no entry for:", s, file=sys.stderr); continue
    for p in hit[0][1].split(","):
        out.append("fixed: property=%s %s %s" % (p, h, hit[0][2]))
keep = [l.rstrip("\n") for l in open(os.path.join(ROOT, "known_findings.jsonl"))] if os.path.exists(os.path.join(ROOT, "known_findings.jsonl")) else []
keep = [l for l in keep if l and not l.startswith("fixed:")]
open(os.path.join(ROOT, "known_findings.jsonl"), "w").write("\n".join(out + keep) + "\n")
