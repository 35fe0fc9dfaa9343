#!/usr/bin/env python3-vt
"""
python3-vt -W ignore check.py PROP [--tier quick|thorough]

Decides one property on the current working tree of /repo:
 1. vc.prove   : generates the obligations of all contracts of the property from /repo's current source and discharges them (z3, cvc5)
 2. vc.conrun  : runs the same contracts concretely on the real code under PyPy (cross-check of the verifier; stand-in for what it can't reach)
 3. bounded.run: end-to-end cases against an independent oracle (stand-in for functions without a contract; search of a failing input)
Exit code 0: held; 1: VIOLATION line printed.
"""
import sys, os, json, time, subprocess, argparse, hashlib, random, tempfile, shutil, glob
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
PYPY = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/bin/python'
if not os.path.exists(VT): VT = sys.executable
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = min(8, os.cpu_count() or 1)
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=HERE)
OUT = os.path.join(HERE, 'replays')

def load(path, default=None):
    try:
        with open(path) as f: return json.load(f)
    except (OSError, ValueError): return default

def run(cmds, timeout):
    "runs commands in parallel (JOBS at a time); -> list of return codes (None: timeout)"
    todo = list(enumerate(cmds)); running = {}; rcs = [None] * len(cmds); errs = [''] * len(cmds)
    while todo or running:
        while todo and len(running) < JOBS:
            i, c = todo.pop(0)
            log = tempfile.TemporaryFile(mode='w+')
            running[i] = (subprocess.Popen(c, cwd=HERE, env=ENV, stdout=subprocess.DEVNULL, stderr=log, stdin=subprocess.DEVNULL, start_new_session=True), time.time(), log)
        time.sleep(.05)
        for i, (p, t, log) in list(running.items()):
            rc = p.poll()
            if rc is None and time.time() - t > timeout:
                try: os.killpg(p.pid, 9)
                except OSError: pass
                p.wait(); rc = None
            elif rc is None: continue
            rcs[i] = rc; log.seek(0); errs[i] = log.read()[-2000:]; log.close(); del running[i]
    return rcs, errs

def bounded(prop, tmp, tag, seed, count, secs, shards=JOBS):
    files = [os.path.join(tmp, '%s%d.json' % (tag, i)) for i in range(shards)]
    cmds = [[PYPY, '-W', 'ignore', '-m', 'bounded.run', prop, '--shard', '%d/%d' % (i, shards), '--seed', str(seed), '--count', str(count), '--time', str(secs), '--json', f] for i, f in enumerate(files)]
    rcs, errs = run(cmds, secs * 2 + 60)
    return [load(f) for f in files], [e for e, r in zip(errs, rcs) if r != 0]

def save_replay(prop, data):
    os.makedirs(OUT, exist_ok=True)
    key = hashlib.md5(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(OUT, '%s-%s.json' % (prop, key))
    with open(path, 'w') as f: json.dump(data, f, indent=1, default=str)
    return os.path.relpath(path, HERE)

def known_findings(prop):
    "-> list of (case file, description) of findings that are recorded, not repaired"
    out = []
    for line in open(os.path.join(HERE, 'known-findings.txt')):
        line = line.strip()
        if line.startswith('finding: property=%s ' % prop):
            rest = line.split(' ', 2)[2]
            f, desc = rest.split(' ', 1)
            out.append((f.split('=', 1)[1], desc))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try: rc = decide(prop, tier, tmp, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def decide(prop, tier, tmp, t0):
    quick = tier == 'quick'
    # ---- 1. deduction
    pf = os.path.join(tmp, 'prove.json')
    prove_cmd = [VT, '-W', 'ignore', '-m', 'vc.prove', prop, '--tier', tier, '--json', pf]
    rcs, errs = run([prove_cmd], 400 if quick else 3000)
    proofs = load(pf)
    broken = []
    if proofs is None:
        proofs = []; broken.append('verifier did not finish: %s' % (errs[0][-400:] or rcs[0]))
    # ---- 2. contracts run on the real code
    n = max(1, len(proofs))
    cf = [os.path.join(tmp, 'con%d.json' % i) for i in range(JOBS)]
    per = 1.0 if quick else 10.0
    rcs, errs = run([[PYPY, '-W', 'ignore', '-m', 'vc.conrun', prop, '--shard', '%d/%d' % (i, JOBS), '--seeds', '150' if quick else '3000', '--start', str(SEED * 1000003 % 10**9), '--time', str(per), '--json', f] for i, f in enumerate(cf)], 200 if quick else 900)
    con = [o for f in cf for o in (load(f) or [])]
    if any(r != 0 for r in rcs): broken.append('conrun: ' + ' '.join(e[-300:] for e, r in zip(errs, rcs) if r != 0))
    # ---- 3. end to end
    res, berr = bounded(prop, tmp, 'b', SEED, 300 if quick else 20000, 14 if quick else 240)
    failures = [f for r in res if r for f in r['failures']]
    broken += berr + sorted({e for r in res if r for e in r.get('internal', ())})[:5]
    known = known_findings(prop)
    knownout = []
    for case, desc in known:
        d = load(os.path.join(HERE, case))
        p = subprocess.run([PYPY, '-W', 'ignore', '-m', 'bounded.run', '--replay', case], cwd=HERE, env=ENV, capture_output=True, text=True, timeout=120)
        if p.returncode == 1 and 'VIOLATION' in p.stdout: knownout.append('KNOWN-FINDING: property=%s %s' % (prop, desc))

    refuted = [p for p in proofs if p['status'] == 'refuted' and any(o['status'] == 'refuted' and not o['cut'] for o in p['obligations'].values())]
    cfailed = [c for c in con if c['failed']]
    extra = []
    lost = [p for p in proofs if p['status'] != 'proved']
    if lost and not cfailed and not failures:
        # a proof does not go through (any more): run those contracts on many more inputs
        df = [os.path.join(tmp, 'deep%d.json' % i) for i in range(JOBS)]
        run([[PYPY, '-W', 'ignore', '-m', 'vc.conrun', prop, '--contract', ','.join(p['contract'] for p in lost), '--seeds', '3000', '--start', str(SEED * 7919 + 100000 * (i + 1)), '--time', str(max(2.0, 20.0 / len(lost))), '--json', f] for i, f in enumerate(df)], 200)
        con += [o for f in df for o in (load(f) or [])]
        cfailed = list({c['contract']: c for c in con if c['failed']}.values())
    if (lost or refuted or cfailed) and not failures:
        # search for an input that confirms the failed obligation on the real code
        for k in range(1, 3 if quick else 6):
            extra, _ = bounded(prop, tmp, 'x%d_' % k, SEED * 7919 + k, 5000, 45)
            failures = [f for r in extra if r for f in r['failures']]
            if failures: break

    lines = []
    if failures:
        f = failures[0]
        others = ['%s: %s' % (p['contract'], ', '.join(n for n, o in p['obligations'].items() if o['status'] == 'refuted')) for p in refuted]
        path = save_replay(prop, dict(f, kind='input', replay_cmd='%s -W ignore -m bounded.run --replay FILE (in /verif)' % PYPY, failed_obligations=others))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        print('failing input (%s): %s' % (f['suite'], f['message']))
        for o in others: print('failed obligations: %s' % o)
    elif refuted or cfailed:
        data = dict(kind='obligation', property=prop, failed=[dict(contract=p['contract'], targets=p['targets'], obligations={n: o for n, o in p['obligations'].items() if o['status'] == 'refuted'}) for p in refuted],
                    concrete=[dict(contract=c['contract'], failed=c['failed']) for c in cfailed],
                    replay_cmd='%s -W ignore -m vc.prove %s -v ; %s -W ignore -m vc.conrun %s' % (VT, prop, PYPY, prop))
        path = save_replay(prop, data)
        for p in refuted:
            for n, o in p['obligations'].items():
                if o['status'] == 'refuted': print('failed obligation %s/%s of %s: %s' % (p['contract'], n, ', '.join(p['targets']), o['detail'][:600]))
        for c in cfailed: print('contract fails on the real code: %s: %s' % (c['contract'], json.dumps(c['failed'], default=str)[:600]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))

    obl = sum(len(p['obligations']) for p in proofs)
    dis = sum(1 for p in proofs for o in p['obligations'].values() if o['status'] == 'discharged')
    unb = [p for p in proofs if not p['bounded']]
    evals = sum(s['cases'] for r in res + (extra or []) if r for s in r['suites'])
    distinct = sum(s['distinct'] for r in res + (extra or []) if r for s in r['suites'])
    suites = {}
    for r in res:
        for s in (r or {}).get('suites', ()):
            d = suites.setdefault(s['suite'], dict(cases=0, distinct=0, skipped=0)); d['cases'] += s['cases']; d['distinct'] += s['distinct']; d['skipped'] += s['skipped']
    samples = [s2 for r in res[:1] if r for s in r['suites'] for s2 in s['samples'][:1]][:4]
    backends = {}
    for p in proofs:
        for b, k in p['backends'].items(): backends[b] = backends.get(b, 0) + k
    man = load(os.path.join(HERE, 'MANIFEST.json'), {}) or {}
    level = next((c['level'] for c in man.get('checks', ()) if c['property'] == prop), 'proof')
    ev = dict(property=prop, tier=tier, seed=SEED, level=level, coverage=dict(
        obligations=obl, discharged=dis, checker_cmd=' '.join([VT] + prove_cmd[1:-2]) + ' (z3 and cvc5; obligations generated from the source under /repo/src on every run)',
        trusted_base=['vc/: the symbolic executor and its model of the Python subset (values, strings, sequences, dicts, exceptions)', 'z3 / cvc5', 'contracts/: that contracts and stubs express the property', 'parsimonious (parser) and the grammar: parse results are inputs of the contracts, covered only by the bounded end-to-end checks'],
        backends=backends, solver_time_s=round(sum(p['solver_time'] for p in proofs), 2),
        contracts=[dict(contract=p['contract'], targets=p['targets'], status=p['status'], obligations=len(p['obligations']), discharged=sum(1 for o in p['obligations'].values() if o['status'] == 'discharged'), paths=p['paths'],
                        bounded=p['bounded'], reason=p['reason'], time_s=p['time']) for p in proofs],
        functions_executed=sorted({f for p in proofs for f in p['functions']}),
        contracts_proved=sum(1 for p in unb if p['status'] == 'proved'), contracts_total=len(proofs),
        contracts_not_discharged=[p['contract'] for p in proofs if p['status'] != 'proved'],
        concrete_contract_runs=sum(c['runs'] - c['rejected'] for c in con), concrete_mismatches=[dict(contract=c['contract'], reason=str(c['mismatch'])[:300]) for c in con if c['mismatch']],
        evaluations=evals, distinct_nontrivial=distinct, rule='bounded stand-in, not counted as proved: random cases built by the generators of the suites in bounded/ (sizes grow with the case number), run on the real code and compared with an independent oracle; distinct = different case descriptions',
        bounded_suites=suites, samples=samples, internal_errors=broken),
        assumptions=sorted({x for p in proofs for x in p['assumptions']}), wall_s=round(time.time() - t0, 1), violations=len(lines))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)

    print('%s: %d/%d obligations discharged in %d contracts (%d proved), %d concrete contract runs, %d end-to-end cases, %.0f s' %
          (prop, dis, obl, len(proofs), sum(p['status'] == 'proved' for p in proofs), ev['coverage']['concrete_contract_runs'], evals, time.time() - t0))
    for p in proofs:
        if p['status'] != 'proved': print('not discharged: %s (%s) %s' % (p['contract'], p['status'], p['reason'][:300]))
    for c in con:
        if c['mismatch']: print('contract not applicable to the current code: %s: %s' % (c['contract'], str(c['mismatch'])[:200]))
    for e in broken: print('internal: %s' % e)
    for k in knownout: print(k)
    for l in lines: print(l)
    if lines: return 1
    if evals == 0 and dis == 0:
        path = save_replay(prop, dict(kind='nothing-decided', property=prop, internal=broken, failed=[dict(contract=p['contract'], status=p['status'], reason=p['reason']) for p in proofs]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        return 1
    return 0

if __name__ == '__main__': main()
