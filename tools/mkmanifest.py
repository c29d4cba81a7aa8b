#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks (props.py) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = getattr(props, "NOT_APPLICABLE", {})
m = dict(version=1, setup_cmd="python3 setup.py",
  hooks=dict(guard="none committed: build overlay", source_commits=[],
    enable="the drivers are built with 'go test -overlay' where the listed packages of /repo's working tree are rewritten by harness/cmd/instr (yield points, sync shims); /repo itself is not touched"),
  checks=[dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
    evidence_file="evidence/%s.json" % i, technique=props.CHECKS[i].technique, level=props.CHECKS[i].level,
    level_note=" ".join((props.CHECKS[i].__doc__ or "").split())) for i in ids if i in props.CHECKS],
  not_applicable=[dict(property=i, reason=NA.get(i, "no check built yet")) for i in ids if i not in props.CHECKS],
  notes="TLA+ specifications in spec/, checked with TLC, bound to the code by replay of their transition graphs and by validation of recorded traces; see DESIGN.md")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
