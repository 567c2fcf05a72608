#!/usr/bin/env python3
"""Run the recorded values of a replay file against the code in /repo. Exit 1 if it still fails."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
b = json.load(open(sys.argv[1]))
if "values" not in b:
    print("no concrete input recorded; failed obligations:", b.get("failed_obligations"))
    sys.exit(2)
td = os.path.join(V, ".build", "native", b["area"])
subprocess.run(["cargo", "build", "--offline", "-q", "--bin", "replay", "--target-dir", td],
               cwd=os.path.join(V, "areas", b["area"]), check=True)
with tempfile.NamedTemporaryFile("w", suffix=".vals") as f:
    f.write("\n".join(b["values"]) + "\n")
    f.flush()
    r = subprocess.run([os.path.join(td, "debug", "replay"), b["harness"], "vals", f.name])
sys.exit(1 if r.returncode else 0)
