"C18: histories of renderings."
from .gen import *
from .b15 import in_tree, FOLDERS, relpath
import copy

BUILT = ['len', 'str', 'max', 'sorted', 'crop', 'merge', 'title', 'cycle', 'dedent', 'int', 'list', 'P', 'upper', 'lower', 'inline', 'unique', 'changes', 'range']
TAGB = ['p', 'div', 'b', 'crop', 'merge', 'dedent', 'custom', 'img', 'ul', 'upper', 'P', 'br']
def spoil(r, i):
    "a script that redefines built-in symbols and leaves definitions behind"
    out = []
    for _ in range(r.randint(1, 4)):
        k = r.random(); n = r.choice(BUILT)
        if k < .3: out.append('$ %s = "spoiled %d"' % (n, i))
        elif k < .5: t = r.choice(TAGB); out.append('%% %s @ bd\n  | <<%s>>\n  @ bd' % (t, t))
        elif k < .6: out.append('for %s in [1, 2]\n  | x' % n)
        elif k < .7: out.append('$ %s, z = "ab"' % n)
        elif k < .8: out.append('$ zq_left = 1\n%zq_tag\n  | left')
        elif k < .9: out.append('if True\n  $ %s = 1\n  | a' % n)
        else: out.append('$ __file__ = "f"' if r.random() < .3 else '$ %s = [1, 2, 3]\n$ y = %s.append(4)' % (n, n))
    if r.random() < .3: out.append(r.choice(['| {1/0}', '| {None}', '| $undef', 'p (', "| {boom('b')}", 'try\n  | {1/0}\nelse\n  | ok', 'zq_undef | x']))
    return '\n'.join(out)
def probe(r):
    "a script which shows what the built-ins mean and which names are defined"
    out = []
    for _ in range(r.randint(2, 5)):
        out.append(r.choice(["| {len('abc')}", "| {str(1 + 2)} {max([1, 2])}", "| {sorted('cab')}", "| {crop('ala ma kota', 8)}", "p | x", "div class='a' | y", "merge\n  | a   b", "b: p | z", "img src='a'", "crop 8 | ala ma kota",
                             "| {list('ab')} {int('4')}", "ul: li | q", "| {upper('a')}", "upper | a", "P | v", "br", "dedent\n  | a\n    b", "custom 'k' | w", "try | $zq_left\nelse | none", "| {unique('a')}", "for x, y in cycle([1, 2], [3]) | $x$y" ]))
    if r.random() < .15: out.append(r.choice(['| $zq_left', 'zq_tag | x', 'zq_tag']))
    return '\n'.join(out)

@suite('C18', 'histories', 2)
def gen_hist(r, size):
    "each script of a sequence gives in a common runtime what it gives in a fresh one"
    items = []
    for i in range(r.randint(2, 3 + size)):
        k = r.random()
        if k < .35: items.append(dict(script=spoil(r, i), helpers=False))
        elif k < .7: items.append(dict(script=probe(r), helpers=False))
        elif k < .8 and items: items.append(r.choice(items))
        else:
            g = Gen(r, size, Profile(trace=.2, fail=.05, attrs=.4)); c = case_of(g.program()); items.append(dict(script=c['script'], vars=c.get('vars', {}), **({} if 'error' in c['expect'] else dict(expect=c['expect']))))
    items.append(dict(script=probe(r), helpers=False))
    if r.random() < .5: items.append(r.choice(items))
    return dict(items=items)
def norm(r): return r.get('out', (r.get('error', [None])[0], r.get('msg')))
def check_hist(case):
    rt = runtime()
    for i, it in enumerate(case['items']):
        a = render(it, rt); b = render(it)
        if norm(a) != norm(b) or a['trace'] != b['trace']: return 'script %d gives %r after the other scripts, %r in a fresh runtime\n%s' % (i, norm(a), norm(b), '\n======\n'.join(x['script'] for x in case['items'][:i + 1]))
        if 'expect' in it:
            m = compare(it, a)
            if m: return 'script %d: %s' % (i, m)
SUITES['C18'][0] = SUITES['C18'][0][:3] + (check_hist,)

@suite('C18', 'documents', 2)
def gen_docs(r, size):
    "a translated document is rendered several times, between renderings of others; its DOM and symbols stay as they were"
    g = Gen(r, size, Profile(attrs=.5, trace=.2, blank=.3, weights=dict(def_=1.2, use=2)))
    c = case_of(g.program())
    if 'error' in c['expect']: raise Skip()
    c['other'] = [spoil(r, 1), probe(r)]
    c['n'] = r.randint(2, 3)
    c['select'] = r.random() < .4
    return c
def dump(x):
    from hypertag import DOM
    if isinstance(x, DOM): return ['DOM'] + [dump(n) for n in x.nodes]
    d = {k: v for k, v in vars(x).items() if k not in ('body',)}
    return [type(x).__name__, sorted((k, repr(v)) for k, v in d.items()), dump(x.body) if getattr(x, 'body', None) is not None else None]
def check_docs(case):
    rt = runtime(); h = Helpers(); env = h.env()
    for k, v in case.get('vars', {}).items(): env[k] = decode(v)
    m = rt.translate(case['script'], **env)
    d0 = dump(m.dom); s0 = {k: id(v) for k, v in m.symbols.items()}
    for i in range(case['n']):
        out = m.dom.render()
        if out != case['expect']['out']: return 'rendering %d of the document gives %r, expected %r' % (i + 1, out, case['expect']['out'])
        if dump(m.dom) != d0: return 'rendering %d modified the document' % (i + 1)
        if case['select']: b = m.dom.body; list(b.walk()); list(b.select(tag='p')); b.skip(tag='p').render(); b.copy()
        for s in case['other']: render(dict(script=s, helpers=False), rt)
        if {k: id(v) for k, v in m.symbols.items()} != s0: return 'symbols of the document have changed'
    again = observe(lambda: rt.translate(case['script'], **Helpers().env(), **{k: decode(v) for k, v in case.get('vars', {}).items()}).dom.render())
    if again.get('out') != case['expect']['out']: return 'the second translation gives %r, expected %r' % (again, case['expect']['out'])
SUITES['C18'][1] = SUITES['C18'][1][:3] + (check_docs,)

@suite('C18', 'imports', 1)
def gen_imp(r, size):
    "scripts that import common modules, whose hypertags keep no state between expansions and renderings; failed imports do no harm"
    f = r.choice(FOLDERS)
    files = {'/'.join(f + ('zq_m.hy',)): r.choice([
        '$ n = 1\n%H x y="d"\n  $ n += x\n  p | $n $y\n$ len = "L"\n%b @ bd\n  | bold\n  @ bd\n',
        '$ n = 10\n%H x y="d"\n  if x > 2\n    $ z = x\n  | $n {z?}\n  %K q\n    | [$q $y]\n  K {n + x}\n',
        '$ n = 5\n%G v\n  for i in [1, 2]\n    $ v += i\n  | $v\n%H x y="d"\n  G x\n  div id=$y : G {x + n}\n'])}
    if r.random() < .3: files['/'.join(f + ('zq_bad.hy',))] = r.choice(['p (', '| {1/0}', '| $undef', 'from .zq_none import *', '| {None}'])
    bad = '/'.join(f + ('zq_bad.hy',)) in files
    scripts = []
    for i in range(r.randint(2, 4)):
        g = r.choice(FOLDERS); L = ['from %s import %s' % (relpath(r, g, f, 'zq_m'), r.choice(['*', '%H, $n', '%H', '%H as H, $n']))]
        for _ in range(r.randint(1, 4)):
            L.append(r.choice(['H 1', 'H 2 "e"', 'div: H x=3', '| $n', '$ n = 100', 'for i in [1, 2, 3]: H i', "| {len('ab')}", 'b | x', '$ len = 3', '%H x\n  | mine', 'H 4', '| $n']) )
        if bad and r.random() < .3: L.insert(0, 'from %s import *' % relpath(r, g, f, 'zq_bad'))
        scripts.append(['/'.join(g + ('main%d.hy' % i,)), '\n'.join(L)])
    scripts += [r.choice(scripts) for _ in range(2)]
    return dict(files=files, scripts=scripts, cwd='/'.join(r.choice(FOLDERS)))
def check_imp(case):
    def go(d):
        rt = runtime()
        for i, (f, s) in enumerate(case['scripts']):
            f = os.path.join(d, f)
            a = observe(lambda: rt.render(s, __file__=f)); b = observe(lambda: runtime().render(s, __file__=f))
            if norm(a) != norm(b): return 'script %d (%s) gives %r after the other scripts, %r in a fresh runtime\n%s\n%r' % (i, f, norm(a), norm(b), '\n=====\n'.join(s for _, s in case['scripts'][:i + 1]), case['files'])
    return in_tree(case, go)
SUITES['C18'][2] = SUITES['C18'][2][:3] + (check_imp,)

@suite('C18', 'runtimes', .4)
def gen_runtimes(r, size):
    "several runtimes of different classes in one process: each has its own built-ins, escape function and imported scripts"
    steps = []
    for i in range(r.randint(2, 6)):
        k = r.random()
        steps.append(['edit', r.randint(0, 99)] if k < .25 else [r.choice(['html', 'html2', 'sub', 'sub2', 'bare'])])
    return dict(steps=steps)
def check_runtimes(case):
    from hypertag import HyperHTML
    from hypertag.core.runtime import Runtime
    class Sub(HyperHTML):
        escape = staticmethod(lambda s: s.replace('<', '(').upper())
        BUILTINS = HyperHTML.BUILTINS + ['string']
    class Bare(Runtime): escape = staticmethod(lambda s: s.replace('<', '['))
    rts = dict(html=HyperHTML(), html2=HyperHTML(), sub=Sub(), sub2=Sub(), bare=Bare())
    esc = dict(html='&lt;', html2='&lt;', sub='(', sub2='(', bare='[')
    main = 'from .zq_m import $v, %H\n| <$v\nH "y"'
    def go(d):
        v, seen = 7, {}
        for n, st in enumerate(case['steps']):
            if st[0] == 'edit': v = st[1]
            with open(os.path.join(d, 'zq_m.hy'), 'w') as o: o.write('$ v = %d\n%%H x\n    | <a$x' % v)
            if st[0] == 'edit': continue
            k = st[0]; w = seen.setdefault(k, v); e = esc[k]
            f = os.path.join(d, 'main.hy')
            r = observe(lambda: rts[k].render(main, __file__=f))
            if 'error' in r: return 'step %d raised %s: %s' % (n, r['error'][0], r['msg'])
            got = [l for l in r['out'].split('\n') if l.strip()]
            want = [e + str(w), e + ('AY' if 'sub' in k else 'ay')]
            if got != want: return 'step %d of %r gives %r, expected %r' % (n, case['steps'], got, want)
            for script, defined in [('| {digits}', 'sub' in k), ('ul | x', k != 'bare'), ('| {len([])}', True)]:
                r = observe(lambda: rts[k].render(script))
                if ('out' in r) != defined: return 'step %d of %r: %s gives %r' % (n, case['steps'], script, r)
    return in_tree(dict(files={}, folders=[''], cwd=''), go)
SUITES['C18'][-1] = SUITES['C18'][-1][:3] + (check_runtimes,)

@suite('C18', 'variables', .4)
def variables(r, size):
    "what was passed to one rendering is not passed to another one in the same runtime"
    items = []
    for i in range(r.choice([2, 3, 4])):
        given = {n: '%s%d' % (n, i) for n in 'xyz' if r.random() < .5}
        tags = [n for n in ('tg', 'th') if r.random() < .4]
        want = [n for n in 'xyz' if r.random() < (.95 if n in given else .15)]; wt = [n for n in ('tg', 'th') if r.random() < (.9 if n in tags else .1)]
        head = 'context ' + ', '.join(['$' + n for n in want] + ['%' + n for n in wt]) + '\n' if want or wt else ''
        loose = r.choice('xyz') if r.random() < .1 else ''
        expect = dict(error='*') if not (set(want) <= set(given) and set(wt) <= set(tags)) or loose and loose not in want else dict(out='|'.join(['r'] + [given[n] for n in want]) + ''.join('\n<%s%d></%s%d>' % (n, i, n, i) for n in wt) + ('\n' + given[loose] if loose else ''))
        items.append(dict(script=head + '| ' + '|'.join(['r'] + ['{%s}' % n for n in want]) + ''.join('\n' + n for n in wt) + ('\n| {%s}' % loose if loose else ''), given=given, names=tags, expect=expect))
    return dict(items=items)
def check_variables(case):
    from hypertag.core.tag import Markup
    rt = runtime()
    for i, it in enumerate(case['items']):
        tags = {n: Markup('%s%d' % (n, i)) for n in it['names']} or None
        r = observe(lambda: rt.render(it['script'], __tags__=tags, **it['given']))
        if 'error' in it['expect']:
            if 'error' not in r: return 'rendering %d: %r gives %r although a symbol is not passed to it' % (i, it['script'], r['out'])
        elif r.get('out') != it['expect']['out']: return 'rendering %d of %r: %r, expected %r' % (i, it['script'], r, it['expect'])
SUITES['C18'][-1] = SUITES['C18'][-1][:3] + (check_variables,)
