#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from props.py."""
import json
import subprocess
from props import PROPS

with open("/verif/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"],
                        "hook_needed": "cfg(rav1e_verif) re-exports" if p["feature"] else None},
        }) + "\n")
        assert len(p["title"]) <= 80, p["title"]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout
hooks = [l.split()[0] for l in log.splitlines() if l.split(" ", 1)[1].startswith("verif:")][::-1]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "--cfg rav1e_verif (rustc cfg flag)",
              "enable": "RUSTFLAGS='--cfg rav1e_verif' cargo build, in the harness crate /verif/harness",
              "source_commits": hooks},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "technique": "symbolic execution of the compiled LLVM IR of /repo's code; obligations decided by a SAT solver (kissat) over bit-vectors",
        "level": "other",
        "level_note": "Holds for every input within these bounds: " + (p["bounds"] or "see evidence") +
                      (". Outside: " + p["outside"] if p["outside"] else "") +
                      ". Trusts rvsym's IR semantics, the harness's transcription of the specification, and the SAT solver."
    } for p in PROPS if p["harnesses"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if not p["harnesses"]],
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)

import glob
import os
d = open("/verif/DESIGN.in.md").read()
o = []
for p in PROPS:
    o.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
    if p["harnesses"]:
        o.append(f"*Harnesses* (`harness/src/h_{p['feature']}.rs`): " + ", ".join(h["name"] for h in p["harnesses"]) + ".")
        o.append(f"*Bounds*: {p['bounds']}. *Outside*: {p['outside'] or 'nothing further'}.")
        if p["assumptions"]:
            o.append("*Assumes*: " + "; ".join(p["assumptions"]) + ".")
        o.append("*Oracle / observed*: " + "; ".join(p["observe"]) + ".\n")
    else:
        o.append(f"Not applicable: {p['na']}\n")
d = d.replace("@@PROPS@@", "\n".join(o))
kf = json.load(open("/verif/known_findings.json"))["findings"]
d = d.replace("@@FIXES@@", "\n".join(f"- {k['what']}" for k in kf))
rows = []
for m in sorted(glob.glob("/verif/seeded/*/meta.json") + glob.glob("/verif/planted/*/meta.json")):
    j = json.load(open(m))
    rows.append(f"- `{os.path.basename(os.path.dirname(m))}` ({j['property']}): {j['what_it_breaks']}. Needs: {j['needs']}. "
                f"{j.get('caught', 'Caught by the check of ' + j['property'] + '.')}")
d = d.replace("@@SEEDS@@", "\n".join(rows))
open("/verif/DESIGN.md", "w").write(d)
