"""Adds the fix commits of /repo that known_findings.json lacks: python3 tools/findings.py [PREFIX=PROP ...]"""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(ROOT, "known_findings.json")
d = json.load(open(F))
have = {x["line"].split(" ", 3)[3] for x in d["findings"] if x["status"] == "fixed"}
rules = [a.split("=", 1) for a in sys.argv[1:]]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    what = s[5:]
    if what in have:
        continue
    for word, p in rules:
        if word in what:
            d["findings"].append({"status": "fixed", "property": p, "key": "", "commit": h, "what": what, "line": f"fixed: property={p} {h} {what}"})
            print(p, h, what)
            break
    else:
        print("NO RULE", h, what)
json.dump(d, open(F, "w"), indent=1, ensure_ascii=False)
open(F, "a").write("\n")
