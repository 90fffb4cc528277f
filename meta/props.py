"""Single source of properties.jsonl and MANIFEST.json (run: python3 meta/props.py)."""
import json, os
P = []      # claimed
NA = []     # (property dict, reason)


def P_(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique="", note="", na=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    if na:
        NA.append((d, na))
    else:
        P.append((d, technique, note))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "list.py")).read())

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d in sorted([p[0] for p in P] + [n[0] for n in NA], key=lambda d: d["id"]):
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "checks": [{"property": d["id"], "quick_cmd": "./check %s quick" % d["id"],
                 "thorough_cmd": "./check %s thorough" % d["id"],
                 "evidence_file": "evidence/%s.json" % d["id"],
                 "technique": t, "level": "model_checking", "level_note": n}
                for d, t, n in sorted(P, key=lambda p: p[0]["id"])],
     "not_applicable": [{"property": d["id"], "reason": r} for d, r in NA],
     "notes": "TLA+ specifications under spec/, checked with TLC; conformance drivers under harness/ "
              "run the code of /repo's working tree (go build -overlay) and TLC validates what they "
              "record. No hooks in /repo: every observation is made through exported interfaces."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md
here = os.path.dirname(os.path.abspath(__file__))
o = open(os.path.join(here, "design_head.md")).read()
for d, t, n in sorted(P, key=lambda p: p[0]["id"]):
    o += "### %s — %s\n\n%s\n\n*For all:* %s.\n\n*Decided by:* %s\n\n*Out of reach of tests:* %s\n\n*Code:* %s\n\n" % (
        d["id"], d["title"], d["statement"], d["quantifier"]["text"].rstrip("."), n, d["why_tests_cant"],
        ", ".join("`%s`" % f for f in d["anchors"]["files"]))
for d, r in NA:
    o += "### %s — %s\n\n%s\n\n*Not applicable:* %s\n\n" % (d["id"], d["title"], d["statement"], r)
t = open(os.path.join(here, "design_tail.md")).read()
fx = [json.loads(l) for l in open(os.path.join(ROOT, "KNOWN_FINDINGS.jsonl")) if l.startswith("{")]
t = t.replace("@FIXES@", "\n".join("* " + x["what"].replace("fixed: property=", "") for x in fx))
sd = os.path.join(here, "seeds.txt")
t = t.replace("@SEEDS@", open(sd).read() if os.path.exists(sd) else "")
open(os.path.join(ROOT, "DESIGN.md"), "w").write(o + t)
