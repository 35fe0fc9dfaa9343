"""
/opt/venv/bin/python -m vc.conrun PROP [--contract ID] [--seeds N] [--start S] [--time T] [--json OUT]
Runs the contracts of a property concretely on the real code.
"""
import sys, json, time, traceback, argparse, random
from . import boot
from .contract import REGISTRY
from .api_con import run_contract

def load(prop):
    import glob, os, importlib
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for f in sorted(glob.glob(os.path.join(here, 'contracts', 'c*.py'))):
        importlib.import_module('contracts.' + os.path.basename(f)[:-3])
    return [c for c in REGISTRY if prop in ('all', c.prop)]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--contract'); ap.add_argument('--seeds', type=int, default=200); ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--time', type=float, default=5); ap.add_argument('--json'); ap.add_argument('--shard', default='0/1')
    a = ap.parse_args()
    out = []
    si, sn = map(int, a.shard.split('/'))
    for ci, c in enumerate(load(a.prop)):
        if ci % sn != si: continue
        if a.contract and not {c.id, c.name} & set(a.contract.split(',')): continue
        t0 = time.time(); n = rej = mis = 0; failed = None; checks = {}; m = None
        for s in range(a.start, a.start + a.seeds):
            if time.time() - t0 > a.time: break
            try: st, d, ch = run_contract(c, s)
            except Exception as ex:
                st, d, ch = 'mismatch', '%s: %s %s' % (type(ex).__name__, ex, traceback.format_exc()[-600:]), {}
            n += 1
            for k in ch: checks[k] = checks.get(k, 0) + 1
            if st == 'reject': rej += 1
            if st == 'mismatch': mis += 1; m = d
            if st == 'failed': failed = dict(seed=s, **d); break
        out.append(dict(contract=c.id, runs=n, rejected=rej, mismatches=mis, mismatch=m, failed=failed, checks=checks))
    if a.json: json.dump(out, open(a.json, 'w'))
    else:
        for o in out:
            print('%-45s %4d runs %3d rejected %3d mismatch  %s' % (o['contract'], o['runs'], o['rejected'], o['mismatches'], 'FAILED %s' % o['failed'] if o['failed'] else ''))
            if o['mismatch']: print('    ', o['mismatch'])
if __name__ == '__main__': main()
