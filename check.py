"""Decide one property: check.py PROPERTY [--tier quick|thorough] [--seed N]

1. Discharge every proof obligation of the functions the property depends on, generated from
   /repo's current source (pyvc, units/).
2. Run the contracts' executable reading against the real code (cx): a cross-check of the
   specifications, the replay of refuted obligations and the bounded stand-in for whatever the
   verifier could not reach.
"""
import concurrent.futures
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYVC_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/bin/python"
PY = "/opt/venv/bin/python"
EXTRA = {"CX_INTS": ""}


def ints_of(models):
    import re
    out = []
    for m in models:
        for t in re.findall(r"-?\b\d+\b", m or ""):
            if len(t) < 40 and abs(int(t)) > 2 and t not in out:
                out.append(t)
    return out[:60]


def sub(cmd, timeout, env=None, hedge=None):
    """Run a command that prints JSON. If it gives nothing in `hedge` seconds a second copy of it is
    started, and the first to finish counts: a solver call now and then ignores its time limit."""
    t0 = time.time()
    procs = []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", **(env or {}))

    def start():
        out, err = tempfile.TemporaryFile(), tempfile.TemporaryFile()
        procs.append((subprocess.Popen(cmd, cwd=HERE, stdout=out, stderr=err, env=env), out, err))

    start()
    try:
        while True:
            for p, out, err in procs:
                try:
                    p.wait(0.05 / len(procs))
                except subprocess.TimeoutExpired:
                    continue
                out.seek(0)
                err.seek(0)
                try:
                    return json.loads(out.read().decode().strip().splitlines()[-1]), None
                except Exception:
                    return None, "exit %s after %.0f s: %s" % (p.returncode, time.time() - t0, err.read().decode(errors="replace")[-800:])
            spent = time.time() - t0
            if spent > timeout:
                return None, "no result within %d s" % timeout
            if hedge is not None and spent > hedge and len(procs) == 1:
                start()
    finally:
        for p, out, err in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
            out.close()
            err.close()


def run_unit(name, unroll=None, budget=200):
    cmd = [VT, "-m", "pyvc.worker", name, "--budget", str(budget)]
    if unroll is not None:
        cmd += ["--unroll", str(unroll)]
    r, why = sub(cmd, budget + 60, hedge=budget / 2)
    if r is None:
        r = {"unit": name, "status": "error", "why": why, "obls": [], "functions": [], "covers": {}, "paths": 0, "solver_time": 0,
             "assumptions": [], "wall": 0, "bounded": unroll is not None, "props": [], "under": [], "loops": {}}
    return r


def run_cx(prop, seed, start, count, secs, ints=""):
    r, why = sub([PY, os.path.join(HERE, "cx", "run.py"), prop, str(seed), str(start), str(count), str(secs)], secs + 90, {"CX_INTS": ints})
    if r is None:
        r = {"property": prop, "evaluations": 0, "nontrivial": 0, "distinct": [], "failures": [], "errors": [why], "scenarios": {}, "samples": [], "wall": 0}
    r["seed"], r["ints"] = seed, ints
    return r


def split(r):
    """(definitely refuted obligations, otherwise undischarged ones, reasons) of a unit result."""
    definite = [o for o in r["obls"] if o["status"] == "refuted" and not o["havoc"]]
    weak = [o for o in r["obls"] if o["status"] != "proved" and o not in definite]
    why = []
    if r["status"] != "ok":
        why.append("%s: %s" % (r["status"], (r["why"] or "").strip()[-300:]))
    if weak:
        why.append("%d obligations neither proved nor refuted for a reachable state (%s)" % (len(weak), ", ".join(sorted({o["name"] for o in weak})[:3])))
    bad = [c for c, v in r["covers"].items() if v != "sat" and not (v == "unknown" and r.get("quant"))]
    if bad:
        why.append("cases of the contract never reached: %s" % ", ".join(bad))
    if not r["obls"] and r["status"] == "ok":
        why.append("no obligations")
    return definite, weak, why


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = args[args.index("--tier") + 1] if "--tier" in args else os.environ.get("VERIF_TIER", "quick")
    seed = int(args[args.index("--seed") + 1] if "--seed" in args else os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    t0 = time.time()
    lst, why = sub([VT, "-m", "pyvc.worker", "--list"], 120)
    if lst is None:
        lst = {"units": {}, "broken": {"all": why}}
    units = sorted((n for n, u in lst["units"].items() if prop in u["props"] and (thorough or u["tier"] == "quick")), key=lambda n: -lst["units"][n]["cost"])
    bunits = [n for n in units if lst["units"][n].get("bounded")]    # bounded by construction: never counted as proved
    units = [n for n in units if n not in bunits]
    known = json.load(open(os.path.join(HERE, "units.json"))) if os.path.exists(os.path.join(HERE, "units.json")) else {}
    lost = [n for n, u in known.items() if prop in u["props"] and n not in lst["units"]]

    pool = concurrent.futures.ThreadPoolExecutor(8)
    uf = [pool.submit(run_unit, n, None, 800 if thorough else 200) for n in units]
    # Units with quantifiers are decided by E-matching alone, which can't exhibit states. The same
    # contracts over a finite instance are decidable: they guard against vacuity and refute.
    fin = [n for n in units if lst["units"][n].get("quant")]
    ff = [pool.submit(run_unit, n, lst["units"][n]["bounded_unroll"], 150) for n in fin] + [pool.submit(run_unit, n, None, 150) for n in bunits]
    nchunk, secs = (8, 240) if thorough else (8, 14)
    cf = [pool.submit(run_cx, prop, "%d.%d" % (seed, k), 0, 10**9, secs) for k in range(nchunk)]
    ur = [f.result() for f in uf]
    fr = [f.result() for f in ff]
    cr = [f.result() for f in cf]

    definite, soft = [], []
    for n in lost:
        soft.append((n, None, ["the unit's subject is no longer there: %s" % (list(lst["broken"].values()) or ["?"])[0][-300:]]))
    for r in ur:
        d, w, ys = split(r)
        if d:
            definite.append((r, d))
        if ys:
            soft.append((r["unit"], r, ys))

    for r in fr:
        d, w, ys = split(r)
        if d:
            definite.append((r, d))
        if ys:
            soft.append((r["unit"] + ("" if r["unit"] in bunits else " (finite instance)"), None, ys))

    failures = [(c, f) for c in cr for f in c["failures"]]
    br = list(fr)
    if not failures and (definite or soft):
        # Replay: look for the failing input on the real code, near the solver's models.
        ints = ",".join(ints_of([o["model"] for r, d in definite for o in d] + [o["model"] for _, r, _ in soft if r for o in r["obls"] if o["status"] != "proved"]))
        ef = [pool.submit(run_cx, prop, "%d.x%d" % (seed, k), 0, 10**9, 240 if thorough else 50, ints if k % 2 else "") for k in range(8)]
        bf = [pool.submit(run_unit, n, lst["units"][n]["bounded_unroll"], 150) for n, r, _ in soft if r is not None and n not in fin and (r["loops"] or r["status"] != "ok")]
        ec = [f.result() for f in ef]
        cr += ec
        failures = [(c, f) for c in ec for f in c["failures"]]
        for r in [f.result() for f in bf]:
            br.append(r)
            d, w, ys = split(r)
            if d:
                definite.append((r, d))
    pool.shutdown()

    obls = [o for r in ur for o in r["obls"]]
    proved = [o for o in obls if o["status"] == "proved"]
    functions = sorted({f for r in ur for f in r["functions"]})
    backends = {}
    for o in proved:
        backends[o["solver"]] = backends.get(o["solver"], 0) + 1
    distinct = set()
    for c in cr:
        distinct.update(c.get("distinct", []))
    scen = {}
    for c in cr:
        for k, v in c["scenarios"].items():
            scen[k] = scen.get(k, 0) + v
    evals = sum(c["evaluations"] for c in cr)
    errors = [e for c in cr for e in c["errors"]]
    violation = bool(failures or definite)
    level = "proof" if units else "exploration"
    assumptions = sorted({a for r in ur for a in r["assumptions"]})
    trusted = ["the verification condition generator pyvc (symbolic interpreter of the CPython 3.12 semantics it supports)",
               "z3 4.x and cvc5 as back ends", "CPython and the standard library functions modelled in pyvc/models.py"] + assumptions
    samples = [s for c in cr for s in c["samples"]][:6]
    cov = {
        "obligations": len(obls), "discharged": len(proved), "checker_cmd": "python3 check.py %s --tier %s" % (prop, tier),
        "trusted_base": trusted, "back_ends": backends, "functions_under_contract": functions,
        "units": {r["unit"]: {"status": r["status"], "obligations": len(r["obls"]), "discharged": len([o for o in r["obls"] if o["status"] == "proved"]),
                              "paths": r["paths"], "solver_s": r["solver_time"], "wall_s": r["wall"], "loops": r["loops"], "covers": r["covers"], "under": r["under"]} for r in ur},
        "solver_s": round(sum(r["solver_time"] for r in ur), 2),
        "not_discharged": [{"unit": n, "why": ys} for n, _, ys in soft],
        "bounded_stand_ins": [{"unit": r["unit"], "bound": r.get("bound") or "loops unrolled", "status": r["status"], "obligations": len(r["obls"]),
                               "proved": len([o for o in r["obls"] if o["status"] == "proved"])} for r in br],
        "evaluations": evals, "distinct_nontrivial": len(distinct),
        "rule": "random declarations, values and streams made by cx/gen.py and cx/props.py from the seed, run against the real code and compared with the "
                "executable contracts in cx/model.py; a case counts if it got as far as a described declaration and value, and is distinct if that description is",
        "samples": samples or ["none"], "scenarios": scen,
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(failures) + len(definite) if violation else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)

    print("%s: %d of %d obligations discharged in %d units (%d functions, solver %.1f s); %d concrete cases (%d distinct); %.0f s" % (
        prop, len(proved), len(obls), len(units), len(functions), cov["solver_s"], evals, len(distinct), time.time() - t0))
    for n, _, ys in soft:
        print("BOUNDED: unit %s not discharged on this source (%s); the bounded concrete search stands in for it" % (n, "; ".join(ys)))
    for e in errors[:3]:
        print("harness error: %s" % e.strip()[-600:])
    if violation:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % prop)
        rep = {"property": prop, "failing_inputs": [], "failed_obligations": []}
        for c, f in failures[:5]:
            rep["failing_inputs"].append(dict(f, seed=c["seed"], env={"CX_INTS": c["ints"]},
                                              reproduce="CX_INTS=%s %s %s %s %s %d 1 60" % (c["ints"], PY, os.path.join(HERE, "cx", "run.py"), prop, c["seed"], f["index"])))
        for r, d in definite:
            for o in d[:10]:
                rep["failed_obligations"].append({"unit": r["unit"], "obligation": o["name"], "back_end": o["solver"], "bounded": r["bounded"],
                                                  "negated_goal_and_path": o["detail"], "model": o["model"],
                                                  "reproduce": "%s -m pyvc.worker %s" % (VT, r["unit"])})
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        for c, f in failures[:2]:
            print("failing input (%s, seed %s, index %d): %s\n   %s" % (f["scenario"], c["seed"], f["index"], f["what"][:600], " | ".join(f["case"])[:900]))
        for r, d in definite:
            print("failed obligation in %s: %s" % (r["unit"], ", ".join(sorted({o["name"] for o in d})[:5])))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if failures else " no-failing-input-found"))
        return 1
    if not evals or len(errors) >= len(cr) * 2:
        print("no answer: the harness failed")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
