"""
python3-vt -m vc.prove PROP [--only NAME] [--json OUT]: discharges the obligations of all contracts of a property.
"""
import sys, os, json, time, traceback, multiprocessing, resource, importlib
from . import boot
from .contract import REGISTRY

def load(prop):
    import glob
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for f in sorted(glob.glob(os.path.join(here, 'contracts', 'c*.py'))):
        importlib.import_module('contracts.' + os.path.basename(f)[:-3])
    return [c for c in REGISTRY if prop in ('all', c.prop)]

def prove_one(c, tier='quick', verbose=False):
    from .engine import Engine
    from . import core, interp
    from .core import OutOfSubset, EngineError, PyExc, Control
    from .api_sym import SymI
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    budget = c.budget * (2 if tier == 'thorough' else 1)
    e = Engine(timeout_ms=10000 if tier == 'quick' else 40000, budget_s=budget, prop=c.prop)
    t0 = time.time()
    r = dict(contract=c.id, targets=list(c.targets), bounded=c.bounded, status='proved', reason='', obligations={}, )
    def harness(eng):
        I = SymI(eng)
        I.prop = c.prop
        try: c.fn(I)
        except PyExc as ex: raise EngineError('uncaught program exception in the harness: %r' % (ex.exc,))
    try:
        e.explore(harness)
        if not e.results: r['status'], r['reason'] = 'broken', 'no obligation generated'
        elif e.reached == 0: r['status'], r['reason'] = 'vacuous', 'no path reaches the end of the harness'
        elif any(o['status'] == 'refuted' for o in e.results.values()): r['status'] = 'refuted'
        elif any(o['status'] != 'discharged' for o in e.results.values()): r['status'] = 'unknown'
    except OutOfSubset as ex:
        r['status'], r['reason'] = 'out-of-reach', str(ex)
        if verbose: traceback.print_exc()
    except EngineError as ex:
        r['status'], r['reason'] = 'out-of-reach', 'engine: %s' % ex
        if verbose: traceback.print_exc()
    except (AttributeError, ImportError) as ex:
        r['status'], r['reason'] = 'out-of-reach', 'target or harness object missing: %s' % ex
        if verbose: traceback.print_exc()
    except MemoryError as ex:
        r['status'], r['reason'] = 'out-of-reach', 'memory'
    except BaseException as ex:
        if isinstance(ex, (KeyboardInterrupt, SystemExit)): raise
        r['status'], r['reason'] = 'out-of-reach', 'verifier failure: %s: %s' % (type(ex).__name__, str(ex)[:300])
        if verbose: traceback.print_exc()
    for n, o in e.results.items():
        o = dict(o); o['time'] = round(o['time'], 3); r['obligations'][n] = o
    r.update(paths=e.stats['paths'], restarts=e.stats['restarts'], cut_loops=e.stats['cut_loops'], queries=e.queries, solver_time=round(e.solver_time, 3),
             time=round(time.time() - t0, 2), backends=e.backends, functions=sorted(e.functions), assumptions=sorted(e.assumptions))
    return r

def _work(a):
    i, tier = a
    return prove_one(_CS[i], tier)

_CS = []
def prove_all(prop, only=None, tier='quick', jobs=8):
    global _CS
    _CS = [c for c in load(prop) if not only or c.name == only]
    if not _CS: return []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(jobs, len(_CS)), maxtasksperchild=1) as pool:
        rs = [pool.apply_async(_work, ((i, tier),)) for i in range(len(_CS))]
        out = []
        for c, r in zip(_CS, rs):
            try: out.append(r.get(timeout=c.budget * (4 if tier == 'thorough' else 2) + 120))
            except multiprocessing.TimeoutError:
                out.append(dict(contract=c.id, targets=list(c.targets), bounded=c.bounded, status='out-of-reach', reason='verifier timeout', obligations={},
                                functions=[], assumptions=[], backends={}, solver_time=0, paths=0, restarts=0, cut_loops=0, queries=0, time=0))
        pool.terminate()
    return out

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--only'); ap.add_argument('--json'); ap.add_argument('--tier', default='quick'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.v:
        rs = [prove_one(c, a.tier, True) for c in load(a.prop) if not a.only or c.name == a.only]
    else: rs = prove_all(a.prop, a.only, a.tier)
    for r in rs:
        print('%-45s %-12s %3d obl %4d paths %3d restarts %5.1fs  %s' % (r['contract'], r['status'], len(r['obligations']), r['paths'], r['restarts'], r['time'], r['reason']))
        for n, o in r['obligations'].items():
            if o['status'] != 'discharged' or a.v: print('    %-40s %s x%d %s' % (n, o['status'], o['count'], 'cut' if o['cut'] else ''))
            if o['status'] != 'discharged': print('       ', o['detail'].replace('\n', '\n        '))
    if a.json: json.dump(rs, open(a.json, 'w'), indent=1)

if __name__ == '__main__': main()
