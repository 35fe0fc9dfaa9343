"""
/opt/venv/bin/python -m bounded.run PROP [--shard i/n] [--seed S] [--count N] [--time T] [--suite NAME] [--json OUT]
/opt/venv/bin/python -m bounded.run --replay FILE
"""
import sys, os, json, time, argparse, random, glob, importlib, traceback, hashlib
from vc import boot
from . import common

def load():
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(glob.glob(os.path.join(here, 'b*.py'))): importlib.import_module('bounded.' + os.path.basename(f)[:-3])

def run_case(test, case):
    "-> message of a violation or None. An exception out of the code under test is a violation, one of the suite itself is an internal error"
    try: return test(case)
    except common.Skip: return None
    except Exception as ex:
        frames = traceback.extract_tb(ex.__traceback__)
        if any('/hypertag/' in f.filename for f in frames): return 'raised %s: %s (%s)' % (type(ex).__name__, str(ex)[:300], ' < '.join('%s:%d' % (f.name, f.lineno) for f in frames[::-1][:5]))
        INTERNAL.append('%s: %s: %s (%s:%d)' % (test.__name__, type(ex).__name__, str(ex)[:200], frames[-1].name, frames[-1].lineno))
        return None
INTERNAL = []

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?'); ap.add_argument('--shard', default='0/1'); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--count', type=int, default=100)
    ap.add_argument('--time', type=float, default=60); ap.add_argument('--json'); ap.add_argument('--suite'); ap.add_argument('--replay'); ap.add_argument('-k', type=int, default=1, help='stop after k violations')
    a = ap.parse_args()
    sys.stdout.reconfigure(errors='backslashreplace')
    load()
    if a.replay:
        d = json.load(open(a.replay))
        for name, _, gen, test in common.SUITES[d['property']]:
            if name == d['suite']:
                m = run_case(test, d['case'])
                print('VIOLATION property=%s: %s' % (d['property'], m) if m else 'no violation')
                sys.exit(1 if m else 0)
    i, n = map(int, a.shard.split('/'))
    t0 = time.time(); out = []; failures = []
    suites = [s for s in common.SUITES.get(a.prop, []) if not a.suite or s[0] == a.suite]
    total = sum(s[1] for s in suites) or 1
    for name, weight, gen, test in suites:
        done = skipped = 0; seen = set(); samples = []; bad = 0
        t1 = time.time(); limit = a.time * weight / total
        for k in range(int(a.count * weight)):
            if time.time() - t1 > limit: break
            r = random.Random('%s/%s/%s/%s/%s' % (a.seed, a.prop, name, i, k))
            try:
                case = gen(r, common.case_size(k))
                case = json.loads(json.dumps(case))
            except common.Skip:
                skipped += 1; continue
            m = run_case(test, case)
            done += 1
            key = hashlib.md5(json.dumps(case, sort_keys=True).encode()).digest()
            seen.add(key)
            if len(samples) < 1 and k >= 5: samples.append(case)
            if m:
                failures.append(dict(property=a.prop, suite=name, case=case, message=m, seed=a.seed)); bad += 1
                if bad >= a.k: break
        out.append(dict(suite=name, cases=done, distinct=[h.hex() for h in seen] if False else len(seen), skipped=skipped, samples=samples, time=round(time.time() - t1, 2)))
        if len(failures) >= a.k: break
    res = dict(prop=a.prop, suites=out, failures=failures, internal=sorted(set(INTERNAL))[:5], time=round(time.time() - t0, 2))
    if a.json: json.dump(res, open(a.json, 'w'))
    else:
        for e in res['internal']: print('INTERNAL', e)
        for s in out: print({k: v for k, v in s.items() if k != 'samples'})
        for f in failures:
            print('FAILURE', f['suite'], f['message']); c = f['case']
            if 'script' in c: print(c['script']); print({k: v for k, v in c.items() if k != 'script'})
            else: print(c)
if __name__ == '__main__': main()
