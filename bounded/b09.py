import re
from .expr import *
from .gen import *

TYPES = ['int', 'str', 'list', 'tuple', 'dict', 'bool']
class Unpacking(Exception): pass

def targets(r, d):
    "nested lists of names"
    n = r.choice([1, 2, 2, 2, 3])
    return [targets(r, d - 1) if d and r.random() < .3 else r.choice('abcdef') for _ in range(n)]
def tgt_text(t, r=None):
    if isinstance(t, str): return t
    s = (', ' if r is None else r.choice([', ', ',', ' , '])).join(x if isinstance(x, str) else '(%s)' % tgt_text(x, r) for x in t)
    return s + ',' if len(t) == 1 or r and r.random() < .15 else s
def names_of(t): return [t] if isinstance(t, str) else [n for x in t for n in names_of(x)]

def bind(env, t, v):
    if isinstance(t, str): env[t] = v; return
    n = 0
    for x in v:
        if n >= len(t): raise Unpacking('too many values', str(len(t)))
        bind(env, t[n], x); n += 1
    if n < len(t): raise Unpacking('not enough values', str(len(t)), str(n))

@suite('C09', 'statements', 3)
def statements(r, size):
    "sequences of assignments, compared with Python after each step"
    types = dict(i='int', s='str', l='list', dd='dict'); out = []; k = 0
    def ex(t, d=None):
        g = Exprs(r, types, ext=.05, fail=.02); g.n = k * 50
        return g.typed(t, min(1 + size // 3, 2) if d is None else d)
    for _ in range(r.choice([1, 2, 3, 5])):
        k += 1
        c = r.random()
        if c < .35:
            t = r.choice(TYPES); e = ex(t); n = r.choice('abcdef')
            out.append(['=', n, e.h, e.p]); types[n] = t
        elif c < .6:
            cand = [n for n in types if types[n] in ('int', 'str', 'list') and n in 'abcdefis']
            n = r.choice(cand); t = types[n]
            op = r.choice(['+', '-', '*', '%', '/', '//', '<<', '>>', '&', '|', '^'] if t == 'int' else ['+'])
            e = ex(t) if op not in ('<<', '>>') else X(FACTOR, '2', '2')
            out.append([op, n, e.h, e.p])
            if op == '/': types[n] = 'float'
        else:
            tg = targets(r, 2)
            if r.random() < .15: tg = [tg] if False else tg
            wrong = r.random() < .2
            def value(t, top=False):
                if isinstance(t, str):
                    ty = r.choice(TYPES); e = ex(ty, 1); new[t] = ty
                    return e.h if e.level >= PIPE or True else e.h, e.p
                items = [value(x) for x in t]
                if wrong and r.random() < .4:
                    if r.random() < .5 and items: items.pop()
                    else: items.append(value('_x'))
                h, p = ', '.join(a for a, _ in items), ', '.join(b for _, b in items)
                if len(items) == 1: h += ','; p += ','
                k = r.random()
                if top and items and k < .4: return h, '(%s)' % p
                if k < .6: return '(%s)' % h, '(%s)' % p
                if k < .8: return '[%s]' % h, '[%s]' % p
                return 'mk(%r, [%s])' % (('gen' if k < .9 else 'iter'), h), 'mk(%r, [%s])' % (('gen' if k < .9 else 'iter'), p)
            new = {}
            h, p = value(tg, True)
            new.pop('_x', None)
            out.append(['unpack', tg, h, p]); types.update(new)
            for n in names_of(tg): types[n] = new.get(n, 'any')
    return dict(steps=out, pre=r.choice(['', ' ', '  ']), eq=r.choice([' = ', '=', ' =', '= ']), comment=r.choice(['', '', ' -- note', '  # x']), where=r.choice(['top', 'top', 'tag', 'loop', 'if', 'def']), rseed=r.randrange(10**6))
def check_statements(case):
    r = random.Random(case['rseed'])
    lines = []; defined = []
    for st in case['steps']:
        if st[0] == 'unpack': lhs = tgt_text(st[1], r); new = names_of(st[1]); eq = case['eq']
        elif st[0] == '=': lhs = st[1]; new = [lhs]; eq = case['eq']
        else: lhs = st[1]; new = []; eq = ' %s= ' % st[0] if r.random() < .7 else st[0] + '='
        lines.append('$%s%s%s%s%s' % (case['pre'], lhs, eq, st[2], case['comment']))
        for n in new:
            if n not in defined: defined.append(n)
        lines.append('$ log.append((%s,))' % ', '.join(['i', 's'] + defined))
    w = case['where']
    if w == 'top': script = '\n'.join(lines) + '\n| end'
    else: script = {'tag': 'div', 'loop': 'for _ in [0]', 'if': 'if True', 'def': '%H'}[w] + '\n' + '\n'.join('    ' + l for l in lines) + '\n    | end' + ('\nH' if w == 'def' else '')
    log, log2 = [], []
    # the names are reassigned, hence not in VARS by their own scope
    vars = {k: VARS[k] for k in ('i', 's', 'l', 'dd')}
    if w in ('loop', 'if') and any(st[1] in ('i', 's') for st in case['steps']): raise Skip     # see known-findings.txt (C13)
    h1, r1, _ = run_hyper(script, vars, dict(log=log))
    h2 = Rec(); env = dict(h2.env(), **{k: decode(v) for k, v in vars.items()}); env.update(Py.env); env['log'] = log2
    def go():
        seen = []
        for st in case['steps']:
            v = eval(st[3], env)
            if st[0] == 'unpack': bind(env, st[1], v); new = names_of(st[1])
            elif st[0] == '=': env[st[1]] = v; new = [st[1]]
            else: env[st[1]] = eval('x %s y' % st[0], dict(x=env[st[1]], y=v)); new = []
            for n in new:
                if n not in seen: seen.append(n)
            log2.append(tuple(env[n] for n in ['i', 's'] + seen))
    try: r2 = observe(go)
    except Quirk: raise Skip
    if 'error' in r2 and (r2['error'][0] in ('Skip', 'RecursionError', 'MemoryError', 'OverflowError') or 'unhashable' in r2['msg']): raise Skip
    if ('error' in r1) != ('error' in r2): return 'Hypertag: %r, Python: %r\n%s' % (r1, r2, script)
    a, b = show(log), show(log2)
    if a != b: return 'values of variables after each step %r, in Python %r\n%s' % (a, b, script)
    if h1.trace != h2.trace: return 'calls %r, in Python %r\n%s' % (h1.trace, h2.trace, script)
    if 'error' in r1:
        e = r2['error'][0]
        if e == 'Unpacking':
            if 'ValueError' not in r1['error']: return 'raised %s: %s, expected a ValueError\n%s' % (r1['error'][0], r1['msg'], script)
            want = eval(r2['msg'])
            for n in want[1:]:
                if n not in re.findall(r'\d+', r1['msg'].split(' at line')[0]): return 'the message %r does not name the numbers of values %s\n%s' % (r1['msg'], want, script)
        elif e not in ('NoneString', 'FalseValue') and e not in r1['error']: return 'raised %s: %s, in Python %s: %s\n%s' % (r1['error'][0], r1['msg'], e, r2['msg'], script)
    else:
        want = {'top': 'end', 'tag': '<div>\n    end\n</div>', 'loop': 'end', 'if': 'end', 'def': 'end'}[w]
        if r1['out'].strip('\n') != want and '\n'.join(l.strip() for l in r1['out'].split('\n') if l.strip()) != '\n'.join(l.strip() for l in want.split('\n')): return 'assignments printed something: %r\n%s' % (r1['out'], script)
SUITES['C09'][0] = SUITES['C09'][0][:3] + (check_statements,)

suite('C09', 'programs', 2)(general(Profile(weights=dict(assign=5, unpack=3, inplace=4, text=4, tags=2, do=1), expr=.8)))

@suite('C09', 'iterables', .5)
def iterables(r, size):
    "the value of any type is unpacked as in Python"
    v = r.choice(["'ab'", "'a,b'", "'a b'", "'abc'", "{'k': 1, 'l': 2}", "{'ab': 1}", '{1, 2}', '{7}', 'range(2)', '(1, 2)', "[1, [2, 3]]", "('a', 'bc')", "['x', {'u': 1, 'v': 2}]", '5', 'None', "''", '[]', '()', '{}', "{'k': 1}.items()", "enumerate('a')", "enumerate('ab')", "map(str, [1, 2])", "zip('ab', 'cd')", "reversed([1, 2])", "iter([1, 2])", "'a', 'b'", "1, (2, 3)", "{'k': 1, 'l': 2}.values()", "'ąż'", "[None, 0]", "2.5", "True", "[[]]", "'a,'"])
    t = r.choice(['x', 'x,', 'x, y', 'x, y', 'x, y,', 'x, y, z', 'x, (y, z)', '(x, y)', 'x, (y,)', '(x, y), z', 'x, x', '(x,)', '(x, y), (z, u)'])
    names = sorted(set(re.findall('[a-z]', t)))
    return dict(v=v, t=t, names=names, loop=r.random() < .25)
def check_iterables(case):
    names = case['names']; got = []
    put = lambda *a: got.append(show(list(a)))
    env = {n: f for n, f in dict(range=range, iter=iter, map=map, zip=zip, reversed=reversed, enumerate=enumerate, str=str).items()}
    lines = ['for %s in [(%s)]\n  $ put(%s)' % (case['t'], case['v'], ', '.join(names))] if case['loop'] else ['$%s = %s' % (case['t'], case['v']), '$ put(%s)' % ', '.join(names)]
    r = observe(lambda: runtime().render('\n'.join(['context $put, ' + ', '.join('$' + n for n in env)] + lines), put=put, **env))
    want = []
    def py():
        g = dict(env, put=lambda *a: want.append(show(list(a))))
        exec(('for %s in [(%s)]: put(%s)' if case['loop'] else '%s = %s\nput(%s)') % (case['t'], case['v'], ', '.join(names)), g)
    e = observe(py)
    if ('error' in r) != ('error' in e): return '%s = %s: %r, in Python %r' % (case['t'], case['v'], r, e)
    if got != want: return '%s = %s binds %r to %r, in Python %r' % (case['t'], case['v'], names, got, want)
SUITES['C09'][-1] = SUITES['C09'][-1][:3] + (check_iterables,)
