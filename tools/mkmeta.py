#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/mkmeta.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the type-checked SSA form with symbolic inputs; per-path proof obligations"
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=AI, level="proof", note="", state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, level=level, note=note, state=state, observe=observe))
NA = []

SC = ["pkg/scsi/scsi.go", "pkg/scsi/sbc.go", "pkg/scsi/backingstore.go"]
SPC = ["pkg/scsi/scsi.go", "pkg/scsi/sbc.go", "pkg/scsi/spc.go"]
ALLCDB = "every CDB of the command, every data buffer length, every unit size and block size, every unit state (read-only, write-protected, offline, removable, reserved) and every outcome of each backing-store call"
NOTE = "Every path of the current source is covered for symbolic inputs; the block size is fixed per run (512 and 4096 bytes quick, 512..65536 thorough). Trusted: SSA construction, the interpreter, the standard-library models."

exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None)
        if p["observe"]: a["observe_at"] = p["observe"]
        if p["state"]: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
na = {i for i, _ in NA}
m = dict(version=1, setup_cmd="bash run.sh build", checks=[], not_applicable=[dict(property=i, reason=r) for i, r in NA])
for p in P:
    if p["id"] in na: continue
    m["checks"].append(dict(property=p["id"], quick_cmd="bash run.sh %s quick" % p["id"], thorough_cmd="bash run.sh %s thorough" % p["id"], technique=p["technique"], level=p["level"], level_note=p["note"] or NOTE))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(m["checks"]), "checks,", len(NA), "not applicable")
