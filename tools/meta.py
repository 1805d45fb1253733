#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
top = os.path.dirname(here)
with open(os.path.join(top, 'properties.jsonl'), 'w') as f:
    for d, *_ in props.P + props.NA:
        f.write(json.dumps(d) + '\n')
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for d, tech, note in props.P:
    m["checks"].append({"property": d["id"], "quick_cmd": "./run.sh " + d["id"], "thorough_cmd": "./run.sh -tier thorough " + d["id"],
                        "technique": tech, "level": "other", "level_note": note})
for d, reason in props.NA:
    m["not_applicable"].append({"property": d["id"], "reason": reason})
with open(os.path.join(top, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
t = open(os.path.join(here, 'DESIGN.tmpl.md')).read()
t = t.replace('@@PROPS@@', '\n'.join(f'* **{d["id"]} {d["title"]}.** {tech}. {d["quantifier"]["text"][0].upper() + d["quantifier"]["text"][1:]}. {note} Beyond tests: {d["why_tests_cant"]}' for d, tech, note in props.P))
t = t.replace('@@NA@@', '\n'.join(f'* **{d["id"]} {d["title"]}.** {r}' for d, r in props.NA))
sd = os.path.join(top, 'seeded')
rows = []
for n in sorted(os.listdir(sd)):
    mf = os.path.join(sd, n, 'meta.json')
    if os.path.exists(mf):
        m = json.load(open(mf))
        cf = os.path.join(here, 'seeds', n + '.caught')
        rows.append(f'* `{n}` ({m["property"]}): {m["what_it_breaks"]}. Caught by: {open(cf).read().strip() if os.path.exists(cf) else "not run"}.')
t = t.replace('@@SEEDS@@', '\n'.join(rows))
open(os.path.join(top, 'DESIGN.md'), 'w').write(t)
