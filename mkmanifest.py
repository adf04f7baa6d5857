"""Writes MANIFEST.json and units.json (unit name -> properties) from the units and properties."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
lst = json.loads(subprocess.run(["/opt/veriftools/pyvenv/bin/python", "-m", "pyvc.worker", "--list"], cwd=here, stdout=subprocess.PIPE, check=True).stdout)
assert not lst["broken"], lst["broken"]
json.dump({n: {"props": u["props"]} for n, u in sorted(lst["units"].items())}, open(os.path.join(here, "units.json"), "w"), indent=1)
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    us = sorted(n for n, u in lst["units"].items() if p["id"] in u["props"] and not u.get("bounded"))
    bs = ["%s (%s)" % (n, u["bounded"]) for n, u in sorted(lst["units"].items()) if p["id"] in u["props"] and u.get("bounded")]
    if us:
        lvl = "proof"
        note = ("Deductive: every obligation generated from /repo's current source for the contracts of %s is discharged by z3/cvc5 for all inputs and iterations. "
                "Assumed: the contracts of abstract collaborators and library functions listed as trusted_base in the evidence. "
                "What the units do not reach is covered by a bounded search of random declarations and inputs on the real code (labelled, not counted as proved)." % ", ".join(us))
        if bs:
            note += " Bounded by construction, not counted as proved: %s." % ", ".join(bs)
    else:
        lvl = "exploration"
        note = "No unit under contract yet: bounded stand-in only, random declarations and inputs on the real code against the executable contracts."
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "technique": "contract-based deductive verification: weakest-precondition style symbolic execution of the real Python source against contracts, SMT back ends"
                   if us else "bounded check against executable contracts", "level": lvl, "level_note": note})
m = {"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the verifier reads the source as it is. known-findings.txt lists the defects repaired by fix: commits; there are no open findings."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
