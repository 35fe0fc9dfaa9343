"""
python3 tools/seed.py SPEC.py [--nocheck] : turns a spec (ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO code) into seeded/<ID>/, after confirming
that it applies, builds, passes the stable tests and that the demo tells the trees apart; then runs the property's quick check on it.
Works in /repo's working tree (test.sh is bound to it) and restores it.
"""
import sys, os, json, subprocess, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def stable():
    sh('bash /opt/vp/test.sh /tmp/w/seed_out.json')
    a = set(json.load(open('/tmp/w/seed_out.json'))['passed']); b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return b - a
def main(spec, check=True):
    s = {}; exec(open(spec).read(), s)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty /repo'
    d = os.path.join(HERE, 'seeded', s['ID']); os.makedirs(d, exist_ok=True)
    with open(d + '/demo.py', 'w') as f: f.write("import sys, os\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.join(os.getcwd(), 'src'))\nfrom hypertag import HyperHTML\n\ndef render(script, **vars):\n    return HyperHTML().render(script, **vars)\n\n" + s['DEMO'].lstrip('\n'))
    with open(d + '/demo.sh', 'w') as f: f.write('#!/bin/sh\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    ok = True
    p = sh('sh %s/demo.sh' % d, cwd='/repo')
    if p.returncode != 0: print('DEMO FAILS ON UNCHANGED TREE', p.stdout, p.stderr[-800:]); ok = False
    try:
        for file, old, new in s['EDITS']:
            path = '/repo/src/hypertag/' + file; t = open(path).read()
            assert t.count(old) == 1, ('edit not unique', t.count(old), old)
            open(path, 'w').write(t.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: print('DOES NOT BUILD', b.stdout[-300:], b.stderr[-300:]); ok = False
        miss = stable()
        if miss: print('BREAKS TESTS', miss); ok = False
        p = sh('sh %s/demo.sh' % d, cwd='/repo')
        if p.returncode == 0: print('DEMO PASSES WITH THE PATCH'); ok = False
        else: print('demo:', (p.stdout + p.stderr).strip().splitlines()[-1:])
        orig = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[0]
        if check and ok:
            for q in s['PROP'].split():
                t = time.time(); p = sh('/opt/veriftools/pyvenv/bin/python -W ignore check.py %s --tier quick' % q, cwd=HERE)
                print('%s -> rc %d (%.0f s)' % (q, p.returncode, time.time() - t)); print('   ' + '\n   '.join(l[:400] for l in p.stdout.splitlines()))
    finally: sh('git -C /repo checkout -- .')
    json.dump(dict(property=s['PROP'].split()[0], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    print(s['ID'], 'OK' if ok else 'NOT OK')
main(sys.argv[1], '--nocheck' not in sys.argv)
