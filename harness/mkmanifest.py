"""Writes MANIFEST.json (run by hand when the claimed checks change)."""
import json
import pathlib
import re
here = pathlib.Path(__file__).resolve().parent
props = [json.loads(l)["id"] for l in (here.parent / "properties.jsonl").read_text().splitlines() if l.strip()]
src = (here / "run_check.py").read_text()
claimed = re.findall(r"(P\d\d)=\"", src)
NOTE = ("TLC enumerates the bounded instance named in DESIGN.md completely and draws seeded random behaviours of larger "
        "instances; every emitted behaviour is replayed into the real code and its observable result compared with "
        "the specification's. Assumes the bounds and abstractions listed in the evidence file.")
NOTES = {}
checks = [dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
               evidence_file=f"evidence/{p}.json",
               technique="TLA+ specification checked with TLC; its behaviours replayed into the real code",
               level="model_checking", level_note=NOTES.get(p, NOTE)) for p in props if p in claimed]
na = [dict(property=p, reason="its specification is being written; not claimed yet") for p in props if p not in claimed]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks: the checks import /repo/src as it is. Known findings: known_findings.jsonl.")
(here.parent / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
