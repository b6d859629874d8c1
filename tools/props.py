#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and tools/checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DR = "third_party/com_github_robotlocomotion_drake/dreal/symbolic/"
TP = "third_party/com_github_progschj_threadpool/ThreadPool/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), note="", hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=w) for a, b, w in state], observe_at=observe, hook_needed=hook), _note=note))
exec(open(V + "/tools/props_table.py").read())
ids = [x["id"] for x in P]
assert len(ids) == len(set(ids))
with open(V + "/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps({k: v for k, v in x.items() if k != "_note"}, ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="python3 tools/build.py core && python3 tools/build.py full" if any(c["bin"] == "full" for c in CHECKS.values()) else "python3 tools/build.py core",
  hooks=dict(guard="DREAL_CHECK_INTERRUPT", enable="The checks compile /repo's sources themselves (tools/build.py). No hook was added to /repo; the only guarded code they switch on is the interrupt check that dReal already ships for its Python package (-DDREAL_CHECK_INTERRUPT).", source_commits=[]),
  checks=[], not_applicable=[])
for x in P:
    i = x["id"]
    if i in CHECKS:
        man["checks"].append(dict(property=i, quick_cmd="python3 tools/check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py %s" % i, evidence_file="evidence/%s.json" % i,
          technique="deterministic simulation with fault injection (seeded schedules, histories and faults; replayable)", level=CHECKS[i].get("level", "exploration"), level_note=x["_note"] or "Seeded search, no exhaustiveness claim. Trusts the simulator (sim/simrt.cc), g++'s instrumentation and the harness's reference model."))
    else:
        man["not_applicable"].append(dict(property=i, reason=NA[i]))
missing = [i for i in CHECKS if i not in ids]
assert not missing, missing
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False); open(V + "/MANIFEST.json", "a").write("\n")
print(len(P), "properties,", len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
