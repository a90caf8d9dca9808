#!/usr/bin/env python3
"""Writes MANIFEST.json from `verifchk list`, notes.json and properties.jsonl."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call([root + '/run', '--build'])
reg = {}
for l in subprocess.check_output([root + '/bin/verifchk', 'list'], text=True).splitlines():
    i, t = l.split('\t'); reg[i] = t
notes = json.load(open(root + '/tools/notes.json'))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in reg:
        checks.append({"property": i, "quick_cmd": "./run " + i, "thorough_cmd": "./run " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": reg[i], "level": "other",
                       "level_note": notes['claimed'].get(i, notes['default'])})
    else:
        na.append({"property": i, "reason": notes['not_applicable'].get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./run --build", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: a path-sensitive abstract interpreter over go/ssa (checker/ai) and rules (checker/checks). See DESIGN.md. No hooks in /repo."}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1); open(root + '/MANIFEST.json', 'a').write('\n')
