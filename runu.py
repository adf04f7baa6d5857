"""Run proof units by name prefix and print their obligations (development aid)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyvc import unit
us = unit.load()
verbose = "-v" in sys.argv
unroll = None
for a in sys.argv[1:]:
    if a.startswith("-u"): unroll = int(a[2:])
sel = [a for a in sys.argv[1:] if not a.startswith("-")]
for n in us:
    if sel and not any(n.startswith(s) for s in sel):
        continue
    r = unit.run_unit(n, unroll)
    bad = [o for o in r["obls"] if o["status"] != "proved"]
    print("%-40s %-11s obls=%d bad=%d paths=%d %.1fs solver %.1fs covers=%s" % (n, r["status"], len(r["obls"]), len(bad), r["paths"], r["wall"], r["solver_time"], {k: v for k, v in r["covers"].items() if v != "sat"}))
    if r["why"]: print("   why:", r["why"])
    shown = {}
    for o in bad:
        shown[o["name"]] = shown.get(o["name"], 0) + 1
        if shown[o["name"]] > 2:
            continue
        print("   BAD", o["name"], o["status"], o["solver"], "%.2f" % o["time"], (o["detail"] or "")[:600] if verbose else "")
        if verbose and o["model"]: print("      model", o["model"][:1500])
    for n2, c in shown.items():
        print("   ", c, "x", n2)
    if verbose:
        print("   functions", r["functions"]); print("   loops", r["loops"])
        seen = {}
        for o in r["obls"]: seen.setdefault(o["name"], []).append(o["time"])
        for k, v in seen.items(): print("     %-70s n=%d max %.2fs" % (k, len(v), max(v)))
