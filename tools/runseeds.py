#!/usr/bin/env python3
"""runseeds.py [ids...]: apply each seeded change to /repo, run the check of its property, undo."""
import json, os, subprocess, sys
S = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(S))
bad = []
for i in ids:
    m = json.load(open("%s/%s/meta.json" % (S, i)))
    subprocess.check_call(["git", "-C", "/repo", "diff", "--quiet"])
    if subprocess.run(["git", "-C", "/repo", "apply", "%s/%s/patch.diff" % (S, i)]).returncode:
        print(i, "DOES NOT APPLY"); bad.append(i); continue
    try:
        p = subprocess.run(["/verif/check", m["property"], "quick"], cwd="/verif", stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
    ok = p.returncode == 1 and "VIOLATION property=%s" % m["property"] in p.stdout
    print("%-28s %s rc=%d %s" % (i, m["property"], p.returncode, "CAUGHT" if ok else "MISSED"), flush=True)
    if not ok:
        bad.append(i)
        print(p.stdout[-1500:])
print("missed:", bad)
