"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "cfg(ibig_verif)", "enable": "RUSTFLAGS='--cfg ibig_verif' (a rustc cfg flag; the driver crate /verif/drv is built with it)",
               "source_commits": [subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=Add verification hooks", "-1"], capture_output=True, text=True).stdout.strip()]},
     "checks": [], "not_applicable": [],
     "notes": "Deciding step: Verus on the real source, contracts woven in mechanically on every run (vt/weave.py, contracts/*.vc). The driver (drv/) is the bounded stand-in and the replay engine."}
for i in ids:
    c = PROPS[i]
    if not c["own"] or c.get("na"):
        m["not_applicable"].append({"property": i, "reason": c.get("na", "no contract for it yet (work in progress)")})
        continue
    m["checks"].append({"property": i, "quick_cmd": f"python3 vt/check.py {i} --tier quick", "thorough_cmd": f"python3 vt/check.py {i} --tier thorough",
                        "technique": c.get("technique", "contract-based deductive verification of the woven real source (Verus/Z3) + bounded stand-in for functions outside its reach"),
                        "level": c.get("level", "other"), "level_note": c["note"]})
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
