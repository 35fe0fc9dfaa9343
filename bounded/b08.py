from .expr import *

@suite('C08', 'expressions', 3)
def expressions(r, size):
    e = expression(r, size)
    return dict(expr=e.h, py=e.p, form=r.choice(['$ put(%s)', '$ put(%s)', '$q = %s\n$ put(q)', '| {put(%s)}', "p title={put(%s)} | x", '$ put((%s))', "$ put([%s][0])"]))
def check_expressions(case): return compare_eval(case, case['form'].replace('%s', case['expr']) if True else '')
SUITES['C08'][0] = SUITES['C08'][0][:3] + (check_expressions,)

@suite('C08', 'strings', .5)
def strings(r, size):
    "text of string literals: escapes, embedded expressions, raw strings"
    q = r.choice('\'"'); raw = r.random() < .2
    h = ''; parts = []
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        k = r.random()
        s = r.choice(['a', ' ', 'Bc', '%', '<', '&', "'" if q == '"' else '"', 'ż', '#', '--', ':', '|', '!', '?', '😀', '(x)', '@', '=', '\u2768', '~'])
        if s in '!?' and h[-1:] == '}': h += ' '; parts.append(' ')
        if raw:
            s = r.choice([s, '$', '{', '}', '$x', '{i}', '\\n', '$$']); h += s; parts.append(s)
        elif k < .5: h += s; parts.append(s)
        elif k < .7: a, b = r.choice([('$$', '$'), ('{{', '{'), ('}}', '}'), ('\\n', '\n'), ('\\t', '\t'), ('\\x41', 'A'), ('\\7', '\7'), ('\\12', '\n'), ('\\101', 'A'), ('\\u0105', 'ą'), ('\\U0001F600', '😀'), ('\\q', '\\q'), ('\\\\', '\\'), ('\\0', '\0'), ('\\a', '\a'), ('\\x7f', '\x7f')]); h += a; parts.append(b)
        elif k < .85: h += r.choice(['{i}', '{ i }', '{i + 0}', '{(i)}']); parts.append('7')
        else: h += '$s '; parts.append('abc ')
    src = ('r' if raw else '') + q + h + q
    py = repr(''.join(parts))
    return dict(expr=src, py=py, form=r.choice(['$ put(%s)', '$ put(%s + %s)', '$ put([%s])']))
def check_strings(case):
    py = {'$ put(%s)': '%s', '$ put(%s + %s)': '%s + %s', '$ put([%s])': '[%s]'}[case['form']]
    c = dict(case, py=py.replace('%s', case['py']))
    return compare_eval(c, case['form'].replace('%s', case['expr']))
SUITES['C08'][1] = SUITES['C08'][1][:3] + (check_strings,)

@suite('C08', 'fresh values', .3)
def fresh(r, size):
    "displays give a new object every time they are evaluated"
    d, f, out = r.choice([('[]', 'l.append(i)', '[%s]'), ('[0]', 'l.append(i)', '[0, %s]'), ('{}', 'l.update({i: i})', '{%s: %s}'), ('{9: 9}', 'l.update({i: i})', '{9: 9, %s: %s}'), ('[[]]', 'l[0].append(i)', '[[%s]]'), ("{'a': []}", "l['a'].append(i)", "{'a': [%s]}"), ('([],)', 'l[0].append(i)', '([%s],)'), ('{5}', 'l.pop() + l.add(i)', None), ('[i]', 'l.append(i)', '[%s, %s]')])
    if out is None: d, f, out = '[1, 2][:1]', 'l.append(i)', '[1, %s]'
    vals = [r.choice([1, 2, 3]) for _ in range(r.choice([2, 3]))]
    shape = r.choice(['for i in %V\n  $l = %d\n  $ %f\n  | {l}', '%%H i\n  $l = %d\n  $ %f\n  | {l}\n%C', 'for i in %V\n  p\n    $l = %d\n    $ %f\n    | {l}'])
    s = shape.replace('%%', '%').replace('%V', str(vals)).replace('%d', d).replace('%f', f).replace('%C', '\n'.join('H %s' % v for v in vals))
    res = [out.replace('%s', str(v)) for v in vals]
    return dict(script=s, expect=dict(out='\n'.join('<p>\n  %s\n</p>' % x if '  p\n' in s else x for x in res)), helpers=False)

@suite('C08', 'free syntax', .8)
def free_syntax(r, size):
    "Python expressions of any syntax: whatever Hypertag accepts has the value it has in Python (the whole term after a unary minus excepted)"
    def atom(d):
        k = r.random()
        if d <= 0 or k < .5: return r.choice(['1', '2', '3', 'i', 'j', 's', 'l', "'a'", '5', '.5', '1e1', '2.', '1E+2', '7e-1', 'is_a', 'notx', 'Nonesuch', 'True', 'None', '0', '123456789012345678901', '9007199254740993', '1e16', '0.1', '1_000', '0x1f', '1e400', '10.50', '"\\x41\\7z"'])
        if k < .62: return '(%s)' % expr(d - 1)
        if k < .7: return r.choice(['l[%s]', 's[%s]', 's[%s:]', 's[: %s]', 's[::%s]', '(%s).real', 'str(%s)', 'len(%s)', 'str (%s)', '[1, 2] [%s]']) % expr(d - 1)
        if k < .8: return r.choice(['[%s, %s]', '(%s, %s)', '(%s, %s,)', '{(%s): %s}', '{%s, %s}', '[%s, %s,]', '{(%s) : %s,}', '[[%s], [%s]]', '(%s,)[%s]', '{%s,%s}']) % (expr(d - 1), expr(d - 1))
        if k < .86: return r.choice(['max(*[%s, 2])', 'dict(a=%s)', 'str(*[%s])', 'dict(**{"a": %s})', '[*[%s], 1]', 'lambda: (%s)', '[x for x in [%s]]', '(%s := 3)', '"%%s" %% %s', '{**{"a": %s}}']) % expr(d - 1)
        return '(%s)' % expr(d - 1)
    def expr(d):
        out, n = '', r.choice([1, 1, 2, 2, 3, 4]) if d > 0 else 1
        minus = False
        for i in range(n):
            if i:
                op = r.choice(['+', '-', '*', '/', '//', '%', '**', '<<', '>>', '&', '|', '^', '==', '!=', '<', '<=', '>', '>=', ' in ', ' not in ', ' is ', ' is not ', ' and ', ' or ', ' if ', ' if '])
                if minus and op in ('*', '/', '//', '%', '**') or op == '**' and out.endswith('9'): op = '+'
                if op == ' if ':
                    out += ' if %s else ' % expr(d - 1); minus = False
                else:
                    sp = '' if op[0] == ' ' else r.choice(['', ' ', ' '])
                    out += sp + op + sp
                    if op not in ('*', '/', '//', '%', '**'): minus = False
            u = r.choice([''] * 9 + ['-', '- ', '--', '+', '~', 'not ', 'not not '])
            if '-' in u: minus = True
            if 'not' in u and out and out.rstrip()[-1] not in 'drefs': u = ''
            out += u + atom(d - 1)
        return out
    e = expr(min(1 + size // 3, 3))
    if '**' in e and e.count('**') + e.count('<<') > 2: raise Skip()
    return dict(expr=e)
def check_free(case):
    import warnings
    e = case['expr']
    try:
        with warnings.catch_warnings(): warnings.simplefilter('ignore'); compile(e, 'e', 'eval')
    except SyntaxError: raise Skip()
    if len(e) > 60: raise Skip()
    try: h2, r2, _ = run_python(e)
    except (MemoryError, OverflowError): raise Skip()
    if 'error' in r2 or 'lambda' in e: raise Skip()
    h1, r1, _ = run_hyper('$ put(%s)' % e)
    if 'error' in r1: return None if any(x in r1['error'][0] for x in ('Syntax', 'Parse', 'Name', 'Undefined', 'Identifier')) else 'expression %s raised %s: %s, in Python it is %r' % (e, r1['error'][0], r1['msg'], h2.result)
    if str(h1.result).replace('-0.0', '0.0') != str(h2.result).replace('-0.0', '0.0'): return 'expression %s evaluates to %r, in Python to %r' % (e, h1.result, h2.result)
SUITES['C08'][-1] = SUITES['C08'][-1][:3] + (check_free,)

ATOMS = ['i', 'j', '2', '3', '1.5', 'is_a', 'notx', 's', 'z', 'l', 'dd', "'a'", "'bc'", 'True', 'False', 'None', '0', '5', '[1, 2]', "(3, 'q')", 'Truex', 'Nonesuch', '[]', '""', '7e1', '.5']
def chain(r, d=1):
    "a flat chain of one kind of operator, with three or more operands most of the time -> (hypertag, python)"
    NUM = ['i', 'j', '2', '3', '1', '0', 'is_a', 'notx', 'Nonesuch', 'True', '5']
    n = r.choice([1, 2, 3, 3, 4])
    k = r.random()
    def join(xs, ops, sp=' '):
        out = xs[0]
        for x in xs[1:]: out += sp + r.choice(ops) + sp + x
        return out, '(%s)' % out
    def sub():
        "an operand of a lower kind, in parentheses"
        if d > 0 and r.random() < .2:
            h, p = chain(r, d - 1)
            return '(%s)' % h, p
        a = r.choice(ATOMS); return a, a
    def zipped(xs): return [x[0] for x in xs], [x[1] for x in xs]
    if k < .1:
        a = [r.choice(['2', '3', 'j', '1', '0', 'is_a', '1.5', 'notx']) for _ in range(n if n < 4 else 3)]
        return ' ** '.join(a), '(%s)' % ' ** '.join(a)
    if k < .2: return join([r.choice(NUM) for _ in range(n)], ['<<', '>>'])
    if k < .3: return join([r.choice(NUM + ['2.5']) for _ in range(n)], ['*', '/', '//', '%'])
    if k < .37: return join([r.choice(NUM + ['2.5']) for _ in range(n)], ['+', '-'], r.choice(['', ' ']))
    if k < .44: return join([r.choice(NUM) for _ in range(n)], [r.choice('&|^')])
    if k < .5:
        h, p = zipped([(('%s%s' % (u, a)), '%s%s' % (u, a)) for u, a in [(r.choice(['', '', '-']) if i == 0 else '', r.choice(NUM)) for i in range(n)]])
        out = h[0]
        ops = [r.choice(['+', '-', '*', '<<', '&', '^', '|', '>>', '==', '<', '!=']) for _ in h[1:]]
        if h[0][0] == '-' and ops and ops[0] == '*': ops[0] = '+'
        for o, x in zip(ops, h[1:]): out += ' %s %s' % (o, x)
        return out, '(%s)' % out
    if k < .62:
        xs = [sub() for _ in range(n)]; h, p = zipped(xs)
        nots = ['not ' * r.choice([0, 0, 0, 1, 2, 3]) for _ in xs]
        op = [r.choice([' and ', ' or ']) for _ in xs]
        return (''.join((o if i else '') + u + x for i, (o, u, x) in enumerate(zip(op, nots, h))), '(%s)' % ''.join((o if i else '') + u + x for i, (o, u, x) in enumerate(zip(op, nots, p))))
    if k < .7:
        xs = [sub() for _ in range(n)]; h, p = zipped(xs)
        op = [r.choice([' == ', ' != ', ' is ', ' is not ', ' is  not ', '==', '!=', ' in ', ' not in ', ' not  in ']) for _ in xs]
        if any('is' in o for o in op[1:]): h = p = [r.choice(['i', 's', 'l', 'dd', 'None', 'True', 'False', 'notx', 'is_a', '(notx)', 'Truex', '(s)']) for _ in op]     # operands of a definite identity
        return (''.join((o if i else '') + x for i, (o, x) in enumerate(zip(op, h))), '(%s)' % ''.join((o if i else '') + x for i, (o, x) in enumerate(zip(op, p))))
    if k < .78:
        m = r.choice([1, 2, 3]); h = p = ''
        for i in range(m):
            (a, b), (c, e) = sub(), sub()
            h += '%s if %s else ' % (a, c); p += '(%s if %s else ' % (b, e)
        a, b = sub()
        if r.random() < .25:
            (c, e) = sub(); return h + '%s if %s' % (a, c), p + "(%s if %s else '')" % (b, e) + ')' * m
        return h + a, p + b + ')' * m
    if k < .84:
        STR = ["'a'", 's', "'bc'", 'Truex', 'i', 'notx', 'z', '(1)', '(s)', "('x')", '5', 'True', 's:str', 'i:str']
        xs = [r.choice(STR) for _ in range(max(n, 2))]
        for i in range(1, len(xs)):
            if xs[i][0] == '(' and not xs[i - 1].endswith(':str'): xs[i] = r.choice(['s', 'i', "'a'"])        # not a call
        return r.choice([' ', '  ']).join(xs), '(%s)' % ' + '.join('str(%s)' % x.replace(':str', '') for x in xs)
    if k < .92:
        a = r.choice(['i', 's', '5', 'l', "'bc'", '(i + 1)', 'i + 1', 'not i', 's * 2'])
        lead, b = ('', a)
        if a == 'i + 1': lead, b = '', '(i + 1)'
        neg = a == 'not i'
        if neg: b = 'i'
        h, p = a, b
        for _ in range(r.choice([1, 2, 3])):
            f = r.choice(['str', 'show', "show('q')", "show(k=2)", "show( 1 , 2 )", 'ff.a', "ff.a(3)", 'ff["b"]', 'str'])
            h += r.choice([':', ' : ', ': ']) + f
            fn, _, args = f.partition('(')
            p = '%s(%s%s' % (fn, p, ', ' + args if args else ')')
        if neg: p = '(not %s)' % p
        return h, p
    xs = [chain(r, d - 1) if d > 0 and r.random() < .6 else (lambda a: (a, a))(r.choice(ATOMS)) for _ in range(r.choice([1, 2, 3]))]
    xs = [x for x in xs if ':' not in x[0]] or [('1', '1')]
    h, p = zipped(xs)
    w = r.choice(['', '', ' ']); c = r.choice([',', ', ', ' , ']); t = r.choice(['', '', ',', ' ,'])
    q = r.random()
    if q < .2: return '[' + w + c.join(h) + t + w + ']', '[' + ', '.join(p) + ']'
    if q < .4: return '(' + w + c.join(h) + (t or ',') + w + ')', '(' + ', '.join(p) + ',)'
    if q < .6:
        keys = r.sample(['1', "'k'", 'i', 's', '2 + 3', '(4)', "'a' + s", 'i << 1', '(i if s else 2)'], len(h))
        return '{' + w + c.join('%s%s:%s%s' % (a, w, w, b) for a, b in zip(keys, h)) + t + w + '}', '{' + ', '.join('%s: %s' % x for x in zip(keys, p)) + '}'
    if q < .8:
        kw = r.sample(['a', 'b', 'k', 'not_', 'x1'], len(h)); m = r.randint(0, len(h))
        return 'show(' + w + c.join([x if i < m else '%s%s=%s%s' % (kw[i], w, w, x) for i, x in enumerate(h)]) + t + w + ')', 'show(' + ', '.join([x if i < m else '%s=%s' % (kw[i], x) for i, x in enumerate(p)]) + ')'
    b = r.choice(['s', 'l', "'abcdef'", '[1, 2, 3, 4]', '(5, 6, 7)', 'l[1:]'])
    i = [r.choice(['', '', '0', '1', '-1', '2', 'i - 6', '-2', '(1 if i else 0)']) for _ in range(r.choice([2, 3, 3]))]
    if len(i) > 2 and i[2] == '0': i[2] = ''
    return b + '[' + ':'.join(w + x + w for x in i) + ']', b + '[' + ':'.join(i) + ']'

@suite('C08', 'chains', 2.5)
def chains(r, size): return dict(exprs=[chain(r) for _ in range(8)])
class Members(dict):
    pass
def run_chains(pairs, hyper):
    got = []
    def show_(*a, **k): return 'f%s%s' % (show(list(a)), show(k))
    ff = Members(b=show_); ff.a = show_
    env = dict(VARS_PLAIN(), show=show_, ff=ff)
    if not hyper:
        for h, p in pairs:
            try: got.append(show(eval(p, dict(env))))
            except Exception as e: got.append(type(e).__name__)
        return got
    for h, p in pairs:
        got.append('not evaluated')
        def put(v): got[-1] = show(v); return ''
        r = observe(lambda: runtime().render('context ' + ', '.join('$' + n for n in dict(env, put=put)) + '\n$ put(%s)' % h, **dict(env, put=put)))
        if 'error' in r: got[-1] = r['error']
    return got
def VARS_PLAIN(): return {k: decode(v) for k, v in VARS.items()}
def check_chains(case):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore'); want = run_chains(case['exprs'], False)
    shown = []                  # those with a value in Python are evaluated all at once
    def show_(*a, **k): return 'f%s%s' % (show(list(a)), show(k))
    ff = Members(b=show_); ff.a = show_
    env = dict(VARS_PLAIN(), show=show_, ff=ff, put=lambda v: shown.append(show(v)) or '')
    pairs = [(x, w) for x, w in zip(case['exprs'], want)]
    ok = [(x, w) for x, w in pairs if not (isinstance(w, str) and w.endswith('Error'))]
    r = observe(lambda: runtime().render('context ' + ', '.join('$' + n for n in env) + '\n' + '\n'.join('$ put(%s)' % h for (h, p), w in ok), **env))
    if 'error' not in r and shown == [w for x, w in ok]: ok_all = True
    else: ok_all = False
    todo = [x for x in pairs if x not in ok] + ([] if ok_all else ok)
    got = run_chains([x for x, w in todo], True)
    for ((h, p), w), g in zip(todo, got):
        if isinstance(w, str) and w.endswith('Error'):
            if not isinstance(g, list) or w not in g: return 'expression %s gives %r, in Python %s' % (h, g, w)
        elif g != w: return 'expression %s evaluates to %r, in Python to %r' % (h, g, w)
    if not ok_all: return 'expressions %r evaluate to %r (%s) together, in Python to %r' % ([x[0] for x, w in ok], shown, r.get('msg'), [w for x, w in ok])
SUITES['C08'][-1] = SUITES['C08'][-1][:3] + (check_chains,)
