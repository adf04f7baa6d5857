"""Proof units: one driver per function under contract, run in worker processes."""
import importlib
import os
import sys
import time
import traceback

REPO = os.environ.get("PYVC_REPO", "/repo")
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
if REPO not in sys.path:
    sys.path.insert(0, REPO)
for _p in ("/opt/venv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)

UNITS = {}
MODULES = ["units.varints", "units.field", "units.types", "units.containers", "units.structs", "units.classes", "units.construct", "units.declare"]


class Unit:
    def __init__(self, name, props, driver, inv=None, contracts=None, under=(), unroll=None,
                 budget=240.0, prove_ms=10000, assumes=(), tier="quick", stubs=None, bounded_unroll=3, cost=1, quant=False, bounded=None):
        self.bounded = bounded
        self.quant, self.prove_ms = quant, prove_ms
        self.cost = cost
        self.name, self.props, self.driver, self.inv = name, props, driver, inv
        self.contracts, self.under, self.unroll = contracts, list(under), unroll
        self.budget, self.assumes, self.tier = budget, list(assumes), tier
        self.stubs = stubs
        self.bounded_unroll = bounded_unroll


def unit(name, props, **kw):
    def deco(f):
        UNITS[name] = Unit(name, props, f, **kw)
        return f
    return deco


def load():
    for m in MODULES:
        importlib.import_module(m)
    return UNITS


def load_all():
    """(units, {module: why it could not be loaded}): a module whose subject changed is out of reach."""
    bad = {}
    for m in MODULES:
        try:
            importlib.import_module(m)
        except Exception:
            bad[m] = traceback.format_exc()[-1500:]
    return UNITS, bad


def sentinels():
    from binobj import fields
    from binobj.fields import base
    return {base.UNDEFINED: "VUndef", base.DEFAULT: "VDefault", base.NOT_PRESENT: "VNotPresent"}


def make_vm(u, unroll=None, budget=None):
    from . import engine
    c = u.contracts() if callable(u.contracts) else (u.contracts or {})
    vm = engine.VM(u.name, contracts=c, loop_inv=u.inv, unroll=unroll if unroll is not None else u.unroll,
                   sentinels=sentinels(), budget=budget or u.budget)
    if u.quant and vm.unroll is None:
        vm.branch_ms = 150
    vm.prove_ms = 4000 if vm.unroll is None and u.quant else u.prove_ms
    vm.quant = u.quant and vm.unroll is None
    if u.stubs:
        vm.stubs = u.stubs() if callable(u.stubs) else u.stubs
    return vm


def run_unit(name, unroll=None, budget=None):
    from . import terms
    t0 = time.time()
    u = load_all()[0][name]
    vm = make_vm(u, unroll, budget)
    status, why = "ok", None
    try:
        vm.explore(u.driver)
    except terms.Unsupported as e:
        status, why = "unsupported", str(e)
    except terms.OutOfTime as e:
        status, why = "timeout", str(e)
    except terms.PyRaise as e:
        status, why = "unsupported", "driver: uncaught %r" % (e.exc,)
    except RecursionError as e:
        status, why = "unsupported", "recursion"
    except Exception as e:
        status, why = "error", traceback.format_exc()[-3000:]
    obls = []
    for n, l in vm.obls.items():
        for o in l:
            obls.append({"name": n, "status": o.status, "solver": o.solver, "time": round(o.time, 4),
                         "havoc": bool(getattr(o, "havoc", False)), "detail": o.detail,
                         "model": str(o.model)[:3000] if o.model is not None else None})
    return {"unit": name, "quant": vm.quant, "bound": u.bounded or "at most 2 fields (or elements), 3 names, loops unrolled" if u.bounded or (u.quant and not vm.quant) else None, "status": status, "why": why, "obls": obls, "functions": sorted(vm.functions),
            "covers": dict(vm.covers), "paths": vm.paths, "solver_time": round(vm.solver_time, 3),
            "assumptions": sorted(set(vm.assumptions) | set(u.assumes)), "wall": round(time.time() - t0, 2),
            "bounded": vm.bounded or unroll is not None or bool(u.bounded), "props": u.props, "under": u.under,
            "loops": {str(k[0]) + "#" + str(k[1] if len(k) > 1 else "") + (":%s" % k[2] if len(k) > 2 else ""): sorted(v.get("dropped", [])) for k, v in vm.loop_state.items()}}
