from .gen import *
W = dict(if_=4, for_=4, while_=2.5, try_=.5, text=4, tags=2, assign=1.5, unpack=.4, do=1, use=.5, inplace=1, comment=.2)
suite('C10', 'control', 3)(general(Profile(weights=W, trace=.6, depth=5)))
suite('C10', 'nested', 1)(general(Profile(weights=dict(W, tags=4), trace=.5, depth=7, blank=.1)))

@suite('C10', 'sequences')
def sequences(r, size):
    "iterables of all kinds, evaluated and consumed as in Python; targets unpacked; `else` only for empty ones"
    items = [r.choice([0, '', 'a<', None, 7, [], 'bc', {'tuple': [1, 2]}, True]) for _ in range(r.choice([0, 0, 1, 2, 3, 6]))]
    nested = r.random() < .4
    if nested: items = [{'tuple': [x, {'tuple': [i, 'q']}]} for i, x in enumerate(items)]
    kind = r.choice(['seq', "mk('tuple', seq)", "mk('iter', seq)", "mk('gen', seq)", "gen('g', seq)", "reversed(mk('list', seq))", "enumerate(seq)", "mk('dict', 'abc')", "'xyz'", '[]', "''", "mk('set', [5])", 'range(3)', '(1, 2)', "seq + seq", "{'k': 1}", 'seq[1:]', "map(str, seq)", "filter(None, seq)", "zip(seq, seq)", "{3, 1, 2}", "{'b', 'a', 'c'}", "5", "None", "mk('dict', ['ab', 'cd'])", "{'ab': 1, 'cd': 2}", "True", "[3, 1, 2]", "[[1, 2], [0, 1]]", "2.5", "{'a': 1}.items()"])
    tgt = r.choice(['x', 'x', 'x, y', 'x, (y, z)', 'x,', '(x, y)', 'x, *'])[:-1 if False else None]
    if tgt == 'x, *': tgt = 'a, (b, c)'
    names = [c for c in tgt if c.isalpha()]
    pykind = kind
    body = "$ t('b%s' % '', " .replace("'b%s' % '', ", '') + '[' + ', '.join(names) + '])'
    body = '$ log.append((%s,))' % ', '.join(names)
    script = "context $t, $mk, $gen, $seq, $log\nfor %s in %s%s\n  %s\n  | i\nelse\n  | empty\n| end" % (tgt, kind, r.choice(['', ':']), body)
    return dict(script=script, vars={'seq': items}, target=tgt, kind=kind, names=names)
def check_sequences(case):
    h = Helpers(); seq = decode(case['vars']['seq']); log = []
    env = dict(h.env(), seq=seq, log=log)
    r = observe(lambda: runtime().render(case['script'], **{k: v for k, v in env.items() if k in ('t', 'mk', 'gen', 'seq', 'log')}))
    h2 = Helpers(); log2 = []
    env2 = dict(h2.env(), seq=decode(case['vars']['seq']), log=log2)
    def py():
        g = dict(env2); out = []
        exec('for %s in %s:\n  log.append((%s,)); out.append("i")\n' % (case['target'], case['kind'], ', '.join(case['names'])), dict(g, out=out))
        return '\n'.join((out or ['empty']) + ['end'])
    e = observe(py)
    if show(log) != show(log2): return 'bindings of the loop targets %r, in Python %r' % (show(log), show(log2))
    if h.trace != h2.trace: return 'steps of the iterator %r, in Python %r' % (h.trace, h2.trace)
    if ('error' in e) != ('error' in r): return 'rendered %r, Python %r' % (r, e)
    if 'out' in e and r['out'] != e['out']: return 'rendered %r, expected %r' % (r['out'], e['out'])
SUITES['C10'][2] = SUITES['C10'][2][:3] + (check_sequences,)

@suite('C10', 'conditions')
def conditions(r, size):
    "clauses of an if block: conditions are evaluated in order until the first true one"
    vals = [r.choice([0, 1, '', 'x', None, [], [0], False, True, {'float': '0.0'}, {'float': '0.1'}, {'tuple': []}, {'dict': []}, {'set': []}, {'obj': ''}]) for _ in range(r.choice([1, 2, 3, 5]))]
    script = 'context $t, $v'
    lines = []; trace = []; sel = None
    for i, v in enumerate(vals):
        form = r.choice(["%s t('c%d', v[%d])", "%s t('c%d', v[%d]):", "%s not not t('c%d', v[%d])", "%s t('c%d', v[%d]) or False:", "%s (t('c%d', v[%d]))"])
        head = form % ('if' if i == 0 else 'elif', i, i)
        if not form.endswith(':') and form.endswith('))') and r.random() < .4: lines += [head + " | out%d {str(t('b%d', %d))}" % (i, i, i)]
        else: lines += [head, "  | out%d {str(t('b%d', %d))}" % (i, i, i)]
        if sel is None:
            trace.append('c%d' % i)
            if decode(v): sel = 'out%d %d' % (i, i); trace.append('b%d' % i)
    if r.random() < .5:
        lines += ['else', "  | else {str(t('e', 1))}"]
        if sel is None: sel = 'else 1'; trace.append('e')
    out = sel + '\nend' if sel else 'end'
    if r.random() < .3:
        # in a loop, twice
        lines = ['for _ in [1, 2]'] + ['  ' + l for l in lines]; trace = trace * 2; out = sel + '\n' + out if sel else out
    return dict(script='\n'.join([script] + lines + ['| end']), expect=dict(out=out), trace=trace, vars=dict(v=vals))
