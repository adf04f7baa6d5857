"""Run scenarios of a property: run.py PROP SEED START COUNT SECONDS -> JSON on stdout."""
import json
import os
import random
import resource
import signal
import hashlib
import sys
import time
import traceback

sys.dont_write_bytecode = True
REPO = os.environ.get("PYVC_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [REPO, HERE]
import warnings
warnings.simplefilter("ignore")
LIMIT = 20      # seconds of CPU time per case; ordinary ones take milliseconds


def one(props, prop, seed, i):
    """(failure or None, harness error or None, case)"""
    from cx import model
    r = random.Random("%s:%s:%d" % (seed, prop, i))
    scens = props.SCEN[prop]
    f = r.choices([f for _, f in scens], [w for w, _ in scens])[0]
    del props.NOTE[:]
    model.SS.count = 0
    def late(*_):
        raise model.Fail("no result within %d s" % LIMIT)
    signal.signal(signal.SIGPROF, late)
    signal.setitimer(signal.ITIMER_PROF, LIMIT)
    try:
        f(r)
        return None, None, f.__name__
    except model.Fail as e:
        return {"scenario": f.__name__, "index": i, "what": str(e), "case": props.NOTE[-6:]}, None, f.__name__
    except Exception as e:     # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        lib = bool(tb) and tb[-1].filename.startswith(REPO + os.sep)
        what = "%s: %s" % (type(e).__name__, e)
        if lib:
            return {"scenario": f.__name__, "index": i, "what": "unexpected " + what, "case": props.NOTE[-6:], "trace": traceback.format_exc()[-1500:]}, None, f.__name__
        return None, traceback.format_exc()[-1500:], f.__name__
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def main():
    prop, seed, start, count, secs = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), float(sys.argv[5])
    out = {"property": prop, "evaluations": 0, "nontrivial": 0, "failures": [], "errors": [], "scenarios": {}, "samples": [], "distinct": []}
    distinct = set()
    resource.setrlimit(resource.RLIMIT_AS, (3 << 29, 3 << 29))
    t0 = time.time()
    try:
        from cx import props
    except Exception:
        out["errors"].append(traceback.format_exc()[-1500:])
        print(json.dumps(out))
        return
    for i in range(start, start + count):
        if time.time() - t0 > secs:
            break
        fail, err, name = one(props, prop, seed, i)
        out["evaluations"] += 1
        out["scenarios"][name] = out["scenarios"].get(name, 0) + 1
        if props.NOTE:
            out["nontrivial"] += 1
            if len(distinct) < 200000:
                distinct.add(hashlib.blake2b("|".join(props.NOTE).encode("utf-8", "replace"), digest_size=6).hexdigest())
            if len(out["samples"]) < 2:
                out["samples"].append(props.NOTE[-1][:600])
        if fail:
            out["failures"].append(fail)
            if len(out["failures"]) >= 3:
                break
        if err and len(out["errors"]) < 3:
            out["errors"].append("index %d: %s" % (i, err))
    out["distinct"] = sorted(distinct)
    out["wall"] = round(time.time() - t0, 2)
    print(json.dumps(out))


if __name__ == "__main__":
    main()
