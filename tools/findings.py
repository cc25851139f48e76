#!/usr/bin/env python3
"""Writes known_findings.json from the git log of /repo and the map below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
MAP = {}
for p, hs in {
    "P02": "f951c9c", "P03": "32eed31", "P04": "c28a643", "P05": "4d18ba4", "P06": "a0ce991 7eda80b",
    "P07": "be6bc9c f0877f1 0b40345 5c68319 8e06e85", "P08": "168ecdd cfea802 8a6a7b8", "P09": "5d280f6 35ad187 b7c33ad b895f1c 5468058",
    "P10": "464fd67 a661a97 3781015 16e80eb 7bfbef2 1d2caa0 6796ff9 c48fcaf a750edd 469f2e4 be23dd9 fdfab13 4fa41f2 b34a922",
    "P11": "5b910ac", "P12": "6bc45eb f441002 787ffe9 9493be6 ff0531c 94a0687 8a2eeef a6d0b11 b4c2f72 bc58bd6 d600cd4 dde1e47",
}.items():
    for h in hs.split():
        MAP[h] = p
FINDINGS = []
def main():
    fixed = []
    for l in subprocess.run(["git", "-C", REPO, "log", "--format=%h %s", "--reverse", "--abbrev=7"], capture_output=True, text=True).stdout.split("\n"):
        h, _, s = l.partition(" ")
        if s.startswith("fix: "):
            fixed.append(f"fixed: property={MAP.get(h, 'none')} {h} {s[5:]}")
    json.dump(dict(findings=FINDINGS, fixed=fixed), open(V + "/known_findings.json", "w"), indent=1)
main()
