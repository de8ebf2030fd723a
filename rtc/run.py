"""python -m rtc.run PROP TIER SEED BUDGET OUT.json      evaluate
   python -m rtc.run --replay FILE.json                  re-run one failing case on /repo"""
import importlib, json, os, sys
from . import core

MODS = ['structure', 'construct', 'derive', 'evolve', 'linear', 'hidden', 'coherence']


def load():
    for m in MODS:
        if os.path.exists(os.path.join(os.path.dirname(__file__), m + '.py')):
            importlib.import_module('rtc.' + m)


def main(a):
    load()
    if a[0] == '--replay':
        d = json.load(open(a[1]))
        for name, gen, f, w in core.CONTRACTS.get(d['property'], []):
            if name == d['contract']:
                r = core.run_case(f, d['case'], 60)
                print('REPRODUCED: ' + r[1] if r else 'not reproduced: the contract holds on this input')
                return 1 if r else 0
        print('unknown contract')
        return 2
    prop, tier, seed, budget, out = a
    rep = core.run_property(prop, tier, int(seed), float(budget))
    json.dump(rep, open(out, 'w'), default=str)
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
