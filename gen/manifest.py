#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of properties the analyser decides."""
import json, re, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = {}
for f in glob.glob(here + '/tool/*.go'):
    for m in re.finditer(r'register\("(C\d+)",\s*"((?:[^"\\]|\\.)*)"', open(f).read()):
        claimed[m.group(1)] = m.group(2)
na = json.load(open(here + '/gen/not_applicable.json')) if os.path.exists(here + '/gen/not_applicable.json') else {}
tech = json.load(open(here + '/gen/technique.json')) if os.path.exists(here + '/gen/technique.json') else {}
checks, nas = [], []
for l in open(here + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in claimed:
        checks.append({
            "property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
            "technique": "static analysis: " + tech.get(p, "path-sensitive interprocedural dataflow over SSA with loop summaries"),
            "level": "other",
            "level_note": claimed[p] + " Decided from the source on every run, nothing is executed and no solver is used. Trusted: the SSA construction of golang.org/x/tools, the analyser's transfer functions, and the documented behaviour of the libraries that are not looked into (raccoondb, protobuf, grpc, yaml, standard library)."})
    else:
        nas.append({"property": p, "reason": na.get(p, "not decided yet: its rule is still being built")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": nas,
           "notes": "No hooks in /repo: the analyser reads the source. See DESIGN.md."}, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(nas), 'not applicable')
