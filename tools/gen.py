#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYMX = "symbolic execution of the compiled crate over a symbolic small prime field (own engine, /verif/symx), every obligation decided by z3 (QF_BV); models replayed on the real code"
KANI = "bounded model checking of the compiled crate with Kani/CBMC (/verif/kani)"
P = []
HOOK = {"C25": "cfg fawkes_verif: SeedboxBlake2::verif_skip_blocks positions the generator at a far block"}
def prop(id, title, statement, over, q, why, files, mech, observe, claimed=None, note=None, tech=SYMX, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, observe=observe, claimed=claimed, note=note, tech=tech, level=level))

exec(open(os.path.join(R, "tools", "table.py")).read())

with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": HOOK.get(p["id"])},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [], "not_applicable": [],
    "hooks": {"guard": "cfg fawkes_verif", "enable": "RUSTFLAGS='--cfg fawkes_verif' (set by kani/run.py; it falls back to a build without the hook)", "source_commits": ["2464c68eaacb3759fe307c946de65824d973b38e"]},
    "notes": "One hook (seeded generator position); everything else needs none: the crate is generic over the field, the constraint system and the pairing engine, and the harness crates instantiate it. Fix commits are listed in known_findings.json.",
}
for p in P:
    if p["claimed"] is True:
        m["checks"].append({
            "property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"], "thorough_cmd": "bash check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": p["level"], "level_note": p["note"],
        })
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["claimed"]})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
