"""Re-run what a replay file records: replay.py FILE"""
import json, os, subprocess, sys
d = json.load(open(sys.argv[1]))
bad = 0
for f in d["failing_inputs"]:
    print("$", f["reproduce"])
    out = subprocess.run(f["reproduce"], shell=True, stdout=subprocess.PIPE).stdout.decode()
    r = json.loads(out.strip().splitlines()[-1])
    for x in r["failures"]:
        bad = 1
        print("  fails: %s\n  case: %s" % (x["what"], " | ".join(x["case"])))
for o in d["failed_obligations"]:
    print("failed obligation %s of unit %s; re-run with:\n$ (cd %s && %s)\n  negated goal and path condition:\n%s\n  model: %s" % (
        o["obligation"], o["unit"], os.path.dirname(os.path.abspath(__file__)), o["reproduce"], o["negated_goal_and_path"], o["model"]))
sys.exit(bad)
