"""Run one proof unit and print its result as JSON: worker.py UNIT [--unroll N] [--budget S] | --list"""
import json
import os
import resource
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    from pyvc import unit
    a = sys.argv[1:]
    if a[0] == "--list":
        us, bad = unit.load_all()
        print(json.dumps({"units": {n: {"props": u.props, "bounded_unroll": u.bounded_unroll, "tier": u.tier, "cost": u.cost, "quant": u.quant, "bounded": u.bounded} for n, u in us.items()}, "broken": bad}))
        return
    unroll = int(a[a.index("--unroll") + 1]) if "--unroll" in a else None
    budget = float(a[a.index("--budget") + 1]) if "--budget" in a else None
    print(json.dumps(unit.run_unit(a[0], unroll, budget)))


if __name__ == "__main__":
    main()
