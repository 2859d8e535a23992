#!/usr/bin/env python3
"""Writes properties.jsonl, parts.json and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []

def P(id, title, statement, over, qtext, why, files, mech, parts, level="model_checking", technique="", note="", deadline=None, obs=None, rule=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      parts=parts, level=level, technique=technique, note=note, deadline=deadline, obs=obs, rule=rule))

exec(open(os.path.join(V, "tools", "props.py")).read())

TECH = {
 "conc": "stateless model checking of the real code: every interleaving of small concurrent programs under a controlled scheduler, linearizability against a sequential model, race detection on every schedule",
 "seq": "bounded exhaustive exploration of the real code (all operation histories / inputs of a finite alphabet) against a reference model",
 "wrap": "bounded exhaustive exploration of host call histories against the real wrapper through a stub host, compared with a reference model",
 "edit": "bounded exhaustive exploration of host call histories against the real wrapper through a stub host, compared with a reference model",
 "refs": "stateless model checking of the C bridge: every memory access is a scheduling point, all interleavings within a preemption bound, with use-after-free and data-race detection",
 "host": "stateless model checking of the real wrapper: every schedule of host threads under a controlled scheduler, linearizability against a sequential model, race detection on every schedule",
}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        **({"observe_at": p["obs"]} if p["obs"] else {}), "hook_needed": None}}, ensure_ascii=False) + "\n")
parts = {}
for p in PROPS:
    if p["parts"]:
        parts[p["id"]] = {"parts": p["parts"], "level": p["level"], **({"deadline": p["deadline"]} if p["deadline"] else {}), **({"rule": p["rule"]} if p["rule"] else {})}
json.dump(parts, open(os.path.join(V, "parts.json"), "w"), indent=1)
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: checks build a scratch copy of /repo's working tree in which the imports of sync and sync/atomic are redirected to the controlled scheduler's shims", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in PROPS:
    if p["parts"]:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "technique": p["technique"] or "; ".join(TECH[k] for k in p["parts"]), "level": p["level"],
            "level_note": p["note"] or ("Exhaustive within the bounds printed in the evidence file, on code built from /repo's working tree; trusts the Go toolchain, the reference model"
               + (" and sequential consistency (unsynchronised accesses are caught by the race detector on every schedule)." if {"conc", "host", "refs"} & set(p["parts"]) else " and the finite alphabet chosen for the inputs."))})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(PROPS), "properties,", len(m["checks"]), "checks")
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]

exec(open(os.path.join(V, "tools", "oracles.py")).read())
KIND = {"conc": "`conc` (schedules)", "seq": "`seq` (histories and inputs)", "wrap": "`wrap` (host histories)", "edit": "`edit` (host histories)",
        "refs": "`refs` (C schedules)", "host": "`host` (host schedules)"}
out = []
for p in PROPS:
    out.append("### %s %s\n\n" % (p["id"], p["title"]) + p["statement"] + "\n\n"
        "- **Decided by** %s. %s\n- **Enumerated:** %s\n- **Oracle:** %s\n- **Beyond the tests:** %s\n- **Code:** %s\n" % (
        ", ".join(KIND[k] for k in p["parts"]), (p["technique"] or "; ".join(TECH[k] for k in p["parts"])).capitalize() + ".", p["qtext"], ORACLE[p["id"]], p["why"],
        "; ".join("%s (%s)" % (w, n) for n, w in p["mech"])))
d = os.path.join(V, "DESIGN.md")
text = open(d).read()
a, b = "<!-- generated: properties -->\n", "<!-- end generated -->"
if a in text:
    head, rest = text.split(a, 1)
    open(d, "w").write(head + a + "\n" + "\n".join(out) + "\n" + b + rest.split(b, 1)[1])
text = open(d).read()
a, b = "<!-- generated: seeds -->\n", "<!-- end seeds -->"
if a in text:
    head, rest = text.split(a, 1)
    rows = ["| planted bug | caught by | needs |\n|---|---|---|\n"]
    for s in sorted(os.listdir(os.path.join(V, "seeded"))) if os.path.isdir(os.path.join(V, "seeded")) else []:
        j = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
        rows.append("| %s | %s | %s |\n" % (s, j["property"], j["needs"].replace("|", "/").replace("\n", " ")))
    if len(rows) > 1:
        open(d, "w").write(head + a + "".join(rows) + b + rest.split(b, 1)[1])
