import re, tempfile, shutil, os
from .expr import *
from .gen import *

def local_body(r, known, ind, n, depth=2):
    "statements of a hypertag that assign local variables, on some paths only, and read them; known: names that may be read"
    out = []
    for _ in range(n):
        k = r.random(); x = r.choice('xyzw')
        if k < .3: out.append('%s$%s = %s' % (ind, x, r.choice(['p', 'q', "p + '1'", "'lit'", "t('e', p)"] + ([r.choice(known)] if known else [])))); known.append(x)
        elif k < .5 and depth:
            out.append('%sif p == %s' % (ind, r.choice(["'1'", "'2'", "q"])))
            out += local_body(r, known, ind + '  ', r.choice([1, 2]), depth - 1)
            if r.random() < .3: out.append(ind + 'else'); out += local_body(r, known, ind + '  ', 1, depth - 1)
        elif k < .58 and depth:
            out.append('%sfor %s in %s' % (ind, x, r.choice(['p', '[]', '[q]', "mk('gen', [p, q])"]))); known.append(x)
            out += local_body(r, known, ind + '  ', 1, depth - 1)
        elif k < .68 and depth:
            out.append('%stry' % ind); out += local_body(r, known, ind + '  ', 1, depth - 1)
            out.append(ind + '  | {%s}' % r.choice(["1/int(p)", "dd[p]", "1/0", "''"]))
        elif k < .75: out.append('%s| %s' % (ind, r.choice(['{1/int(p)}', '{[4, 5][int(p)]}', '{p}'])))
        elif k < .83 and depth:
            out.append('%sdiv' % ind); sub = list(known)
            out += local_body(r, sub, ind + '  ', r.choice([1, 2]), depth - 1)
        elif known:
            v = r.choice(known)
            if r.random() < .2: out.append('%s$%s += %s' % (ind, v, "'!'"))
            else: out.append('%s| {%s}%s' % (ind, v, r.choice(['?', '?', '?', ''])))
        else: out.append(ind + '| -')
    return out

def library(r, size):
    "-> (lines, [(name, has body)])"
    g = [n for n in 'xyzw' if r.random() < .4]
    lines = ["$%s = 'glob%s'" % (n, n) for n in g]; tags = []
    for i in range(r.choice([1, 1, 2, 3])):
        name = 'H%d' % i; body = r.random() < .5
        lines.append('%%%s%s p q={%s}' % (name, ' @ body' if body else '', r.choice(["'dq'", "'1'"] + ["'%s'" % n for n in g])))
        known = list(g) + ['p', 'q']
        b = local_body(r, known, '    ', r.choice([1, 2, 3, 4]))
        if body: b.insert(r.randrange(len(b) + 1) if False else len(b), '    @ body')
        if body and r.random() < .3: b += ['    div', '      @ body']
        if tags and r.random() < .6:
            t, tb = r.choice(tags); b.append('    %s {%s} q={%s}' % (t, r.choice(['p', "'1'", "'2'"]), r.choice(['q', "p"])))
        if r.random() < .25:
            b += ['    %%N%d a' % i] + ['      | {a}'] + (['      $x = a', "      $y += '+'"] if 'y' in known[:len(g)] else ['      $x = a']) + ['    N%d {q}' % i]
        lines += b; tags.append((name, body))
    return lines, tags, g

def occurrence(r, tags):
    name, body = r.choice(tags)
    a = [r.choice(["'1'", "'2'", "'0'", "'zz'", 'G'])]
    if r.random() < .5: a.append(r.choice(["'1'", "'3'", 'G']))
    return dict(tag=name, args=a, body=r.choice([None, 'B', 'C<']) if body else None, place=r.choice(['top', 'top', 'div', 'loop', 'wrap', 'inhyper', 'fun', 'alias', 'passed', 'embed', 'if']))

def source(o, i, markers=True):
    "lines of an occurrence; its output stands between the markers or is passed to put()"
    attrs = ' '.join('{%s}' % a for a in o['args'])
    tag = '%s %s%s' % (o['tag'], attrs, ' / ' + o['body'] if o['body'] else '')
    call = ', '.join([repr(o['body']) if o['body'] else 'None'] + o['args'])
    p = o['place']
    T = lambda ind: [ind + 'try', ind + '    . | begin', ind + '    ' + tag, ind + 'else', ind + '    . | failed']
    if p == 'top': return T('')
    if p == 'div': return ['div'] + T('   ')
    if p == 'loop': return ['for _%d in [1, 2]' % i] + T('   ')
    if p == 'if': return ['if True'] + T('   ')
    if p == 'wrap': return ['%%W%d @ wb' % i, '    i', '        @ wb', 'W%d' % i] + T('   ')
    if p == 'inhyper': return ['%%W%d' % i] + T('   ') + ['W%d' % i]
    if p == 'fun': return ['try', '  $ put(%%%s(%s))' % (o['tag'], call), 'else', "  $ put('failed')"]
    if p == 'alias': return ['$f%d = %%%s' % (i, o['tag']), 'try', '  $ put(f%d(%s))' % (i, call), 'else', "  $ put('failed')"]
    if p == 'passed': return ['try', '  $ put(apply(%%%s, %s))' % (o['tag'], call), 'else', "  $ put('failed')"]
    if p == 'embed': return ['try', '  $ put(join(%%%s, [%s], %s))' % (o['tag'], ', '.join(o['args']), repr(o['body']) if o['body'] else 'None'), 'else', "  $ put('failed')"]

def run_history(lines, occs, g, files=None, rt=None, name=None, pre=()):
    "-> list of normalised outputs of the occurrences"
    got = []
    h = Rec()
    env = dict(h.env(), put=lambda v: got.append(str(v)) or '', apply=lambda f, *a: f(*a), join=lambda f, args, body: f(body, *args), G='g1', dd={'2': 'd'})
    script = ['context ' + ', '.join('$' + n for n in env)] + list(pre) + lines
    for i, o in enumerate(occs):
        script.append('| =%d=' % i); script += source(o, i)
        for n in g: script.append('| {%s}' % n)
    script.append('| =end=')
    s = '\n'.join(script)
    r = observe(lambda: (rt or runtime()).render(s, __file__=name, **env))
    if 'error' in r: return None, r, s
    out = []; cur = None; k = 0
    for l in r['out'].split('\n'):
        l = l.strip()
        if re.fullmatch('=(\\d+|end)=', l):
            if cur is not None: out.append(cur)
            cur = []
        elif l: cur.append(l)
    res = []
    for o, lines_ in zip(occs, out):
        if o['place'] in ('fun', 'alias', 'passed', 'embed'): res.append((got[k].split() if k < len(got) else ['?'], lines_)); k += 1
        else: res.append((strip_place(o, lines_, len(g)), lines_[len(lines_) - len(g):] if g else []))
    return res, r, s

def strip_place(o, lines, ng):
    ls = lines[:len(lines) - ng] if ng else list(lines)
    t = ' '.join(ls)
    p = o['place']
    if p == 'div' and t.startswith('<div>'): t = t[5:-6]
    if p == 'wrap' and t.startswith('<i>'): t = t[3:-4]
    w = [x for x in t.split() if x != 'begin']
    if p == 'loop':
        if len(w) % 2 or w[:len(w) // 2] != w[len(w) // 2:]: return ['iterations differ:'] + w
        w = w[:len(w) // 2]
    return w

@suite('C12', 'histories', 3)
def histories(r, size):
    lines, tags, g = library(r, size)
    return dict(lines=lines, globals=g, occs=[occurrence(r, tags) for _ in range(r.choice([2, 3, 4, 6]))])
def check_histories(case):
    a, r, s = run_history(case['lines'], case['occs'], case['globals'])
    if a is None:
        if 'NameError' in r['error'] or 'SyntaxError' in r['error'] and 'invalid syntax' not in r['msg']: raise Skip
        return 'raised %s: %s\n%s' % (r['error'][0], r['msg'], s)
    # every occurrence alone
    for i, o in enumerate(case['occs']):
        b, r2, s2 = run_history(case['lines'], [dict(o, place='top')], case['globals'])
        if b is None: return 'an occurrence alone raised %s: %s\n%s' % (r2['error'][0], r2['msg'], s2)
        if a[i][0] != b[0][0] : return 'occurrence %d renders %r, alone it renders %r\n%s' % (i, a[i][0], b[0][0], s)
        want = ['glob' + n for n in case['globals']]
        if a[i][1] != want: return 'variables after occurrence %d: %r, expected %r\n%s' % (i, a[i][1], want, s)
SUITES['C12'][0] = SUITES['C12'][0][:3] + (check_histories,)

@suite('C12', 'imported', 1.5)
def imported(r, size):
    "the same library imported by several scripts rendered in one runtime"
    lines, tags, g = library(r, size)
    scripts = []
    for _ in range(r.choice([1, 2, 3])): scripts.append([occurrence(r, tags) for _ in range(r.choice([1, 2, 3]))])
    return dict(lines=lines, tags=[t for t, _ in tags], globals=g, scripts=scripts, wild=r.random() < .4, locals=r.random() < .4)
def check_imported(case):
    tmp = tempfile.mkdtemp(prefix='vp_b12_')
    try:
        with open(os.path.join(tmp, 'lib.hy'), 'w') as f: f.write('\n'.join(["$t = None", "$dd = {'2': 'd'}", "$mk = None"] [:0] + ["%t @ b", "    @ b"][:0] + case['lines']))
        main = os.path.join(tmp, 'main.hy')
        if any(w in '\n'.join(case['lines']) for w in ("t('e'", 'mk(', 'dd[')): raise Skip
        pre = ['from .lib import ' + ('*' if case['wild'] else ', '.join('%' + t for t in case['tags']))]
        g = []
        if case['locals']: pre = ["$%s = 'glob%s'" % (n, n) for n in 'xyzw'] + pre
        if case['locals'] and not case['wild']: g = list('xyzw')
        rt = runtime()
        for k, occs in enumerate(case['scripts']):
            a, r, s = run_history([], occs, g, rt=rt, name=main, pre=pre)
            if a is None:
                if 'NameError' in r['error'] or 'SyntaxError' in r['error'] and 'invalid syntax' not in r['msg']: raise Skip
                return 'raised %s: %s\n%s' % (r['error'][0], r['msg'], s)
            for i, o in enumerate(occs):
                b, r2, s2 = run_history(case['lines'], [dict(o, place='top')], case['globals'])
                if b is None: return 'an occurrence alone raised %s: %s\n%s' % (r2['error'][0], r2['msg'], s2)
                if a[i][0] != b[0][0]: return 'script %d, occurrence %d of an imported hypertag renders %r, alone and locally it renders %r\n%s\n---- lib.hy\n%s' % (k, i, a[i][0], b[0][0], s, '\n'.join(case['lines']))
                if g and a[i][1] != ['glob' + n for n in g]: return 'variables after occurrence %d: %r\n%s\n---- lib.hy\n%s' % (i, a[i][1], s, '\n'.join(case['lines']))
    finally: shutil.rmtree(tmp, ignore_errors=True)
SUITES['C12'][1] = SUITES['C12'][1][:3] + (check_imported,)

suite('C12', 'programs', 1)(general(Profile(weights=dict(def_=4, use=7, tags=2, text=3, if_=1, for_=1.5, assign=2, inplace=1.5, try_=.5), attrs=.2, depth=5)))

@suite('C12', 'fresh', .5)
def fresh(r, size):
    "variables and default values of an expansion start anew in every one, whatever the attributes"
    n = r.choice([2, 3])
    on = [r.random() < .5 for _ in range(n)]
    attrs = r.choice(['', '', ' a=5', ' @ bd'])
    use = r.choice(['H', 'p : H', 'div\n  H', 'p | {%H()}', 'for q in [1]\n  H', 'W'])
    k = r.random()
    wrap = r.choice(['', 'b\n  | w\n']) + ('%W\n  H\n' if use == 'W' else '')
    if k < .6:              # a variable assigned in some expansions only
        inner = r.choice(['if nxt()\n    $x = 1', 'if nxt()\n    for x in [1, 1]\n      | ', 'if nxt()\n    $x, y = 1, 2', 'if nxt()\n    $x = 7\n    $x -= 6'])
        d = '%%H%s\n  %s\n  | {x?}.' % (attrs, inner)
        outs = ['1.' if o else '.' for o in on]
        if 'for x' in inner: raise Skip
    elif k < .75:           # a hypertag that receives itself
        attrs = ''; a, b = r.choice([(1, 9), ('"u"', '"v"')])
        d = r.choice(['%%H n f=0\n  $m = n\n  | {f(None, %s) if f else "."}{n}{m}', '%%H n f=0\n  if f\n    | {f(None, %s)}\n  else\n    | .\n  | {n}']) % b
        x, y = str(a).strip('"'), str(b).strip('"')
        outs = [('.%s%s%s%s' % (y, y, x, x) if 'm}' in d else '. %s %s' % (y, x))] * n
        use = r.choice(['H %s f=%%H', 'H %s %%H', 'p : H %s %%H', 'div\n  H %s f={%%H}']) % a
    else:                   # a default value that is modified
        attrs = ''
        d = '%H x=[] y={[0]}\n  $ x.append(1)\n  $ y.append(2)\n  | {x}{y}'; outs = ['[1][0, 2]'] * n
    form = {'H': '%s', 'p : H': '<p>%s</p>', 'div\n  H': '<div>\n  %s\n</div>', 'p | {%H()}': '<p>%s</p>', 'for q in [1]\n  H': '%s', 'W': '%s'}.get(use) or ('<p>%s</p>' if use[0] == 'p' else '<div>\n  %s\n</div>' if use[0] == 'd' else '%s')
    o = [form % x for x in outs]
    if '@ bd' in attrs: d += '\n  @ bd'
    pre = '<b>\n  w\n</b>\n' if wrap.startswith('b') else ''
    if use == 'W': script = '%s\n%s' % (d, wrap[len('b\n  | w\n') if pre else 0:]) + ('b\n  | w\n' if pre else '') + '\n'.join([use] * n)
    else: script = d + '\n' + wrap + '\n'.join([use] * n)
    return dict(script='context $nxt\n' + script, on=on, want=pre + '\n'.join(o))
def check_fresh(case):
    it = iter(case['on'])
    r = observe(lambda: runtime().render(case['script'], nxt=lambda: next(it)))
    f = lambda s: re.sub(r'\s+', ' ', s).strip()
    if 'error' in r: return 'raised %s: %s' % (r['error'][0], r['msg'])
    if f(r['out']) != f(case['want']): return 'rendered %r, expected %r' % (r['out'], case['want'])
SUITES['C12'][-1] = SUITES['C12'][-1][:3] + (check_fresh,)
