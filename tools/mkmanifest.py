#!/usr/bin/env python3
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {}
try:
    L = json.load(open('/verif/tools/levels.json'))
except FileNotFoundError:
    L = {}
m = dict(version=1, setup_cmd="true",
 hooks=dict(guard="none", enable="no hooks are needed: private items are reached through rustc's own expansion of the source", source_commits=[]),
 checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
for p in props:
    i = p["id"]
    if i in NA: continue
    l = L.get(i, {})
    m["checks"].append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
      evidence_file="evidence/%s.json" % i,
      technique=l.get("technique", "bounded stand-in: independent reference implementation compared on generated and enumerated inputs"),
      level=l.get("level", "exploration"), level_note=l.get("note", "bounded stand-in until the contracts cover this property")))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
