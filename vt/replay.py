#!/usr/bin/env python3
"""Replays the failing input of a replay file on /repo's current tree: exit 1 if it still fails."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
r = json.load(open(sys.argv[1]))
f = r.get("failing_input")
if not f:
    print("no failing input recorded; failed obligations:")
    for x in r["failed_obligations"]:
        print(x["function"], x["errors"][0][1])
    sys.exit(0)
os.makedirs(check.BUILD, exist_ok=True)
b, e = check.build_drv(f["width"])
if not b:
    sys.exit("build failed: " + e)
af = os.path.join(check.BUILD, "replay.args")
open(af, "w").write(f["args"])
rc, o, e = check.sh([b, "--property", r["property"], "--op", f["op"], "--args-file", af], timeout=60)
print(o.strip() or e.strip()[-500:] or "does not terminate")
sys.exit(1 if rc != 0 else 0)
