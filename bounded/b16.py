"C16: functions, filters and tags of the standard library."
from .common import *
import re, itertools
WS = [' ', ' ', '\n', '\t', '  ', '\n\n', '\r\n', '\x0b', '\xa0', '\u3000', '\u2028', '\n  ', '\n\t']
ALPH = ['a', 'B', 'Ala', 'x<y', '&', 'ß', 'İ', 'ǆ', 'ŻÓŁĆ', '#10;', '&#10;', 'Word', '12', '.', 'dog', 'DOG', 'dog']
def rtext(r, n=None):
    n = r.choice([0, 1, 2, 3, 5, 8, 14]) if n is None else n
    s = ''.join(r.choice(WS) if r.random() < .4 else r.choice(ALPH) for _ in range(n))
    return s
def rlines(r):
    ind = r.choice(['', '  ', '\t', '   '])
    return '\n'.join(r.choice(['', ' ', ind, ind + 'a', ind + '  b', ind + 'a ', 'a', ind + '\tc', ind + ' a b  c', ind + ' \t', ind + 'x' + ind + 'y', '\t' + ind + 'k']) for _ in range(r.choice([1, 2, 3, 4, 6])))

def o_crop(s, length=255, end='...', killwords=False, maxdrop=10, leeway=0):
    if len(s) <= length + leeway: return s
    m = length - len(end)
    head = s[:m]
    if not killwords and ' ' in head:
        i = max(k for k, c in enumerate(head) if c == ' ')
        if m - i <= maxdrop: head = head[:i]
    return head + end
def is_space(c): return re.match(r'\s', c) is not None
def o_merge(s):
    words = []; w = ''
    for c in s + ' ':
        if is_space(c):
            if w: words.append(w)
            w = ''
        else: w += c
    return ' '.join(words)
def o_unique(s, strip=True):
    out = []
    for l in s.splitlines():
        if strip: l = l.strip()
        if strip and not l or l in out: continue
        out.append(l)
    return '\n'.join(out)
def o_del_indent(s):
    lines = [l for l in s.split('\n') if l.strip()]
    if not lines: return s
    k = 0
    while all(len(l) > k and l[k].isspace() and l[k] == lines[0][k] for l in lines): k += 1
    ind = lines[0][:k]
    return '\n'.join(l[k:] if l.startswith(ind) else l for l in s.split('\n'))
def o_dedent(s, full=True):
    if not full: return o_del_indent(s)
    return None
def dedented(s, got):
    "full dedent: the same non-blank lines in order without leading whitespace"
    want = [l.lstrip() for l in s.split('\n') if l.strip()]
    return [l for l in got.split('\n') if l.strip()] == want and not any(l[:1].isspace() and l.strip() for l in got.split('\n'))

ORACLE = dict(crop=o_crop, truncate=o_crop, merge=o_merge, unique=o_unique, dedent=o_dedent, inline=lambda s: '&#10;'.join(s.split('\n')), lower=lambda s: str.lower(s), upper=lambda s: str.upper(s),
              doctype=lambda s, value='html': '<!DOCTYPE %s>' % value)
def args_for(r, f, s):
    kw = {}
    if f in ('crop', 'truncate'):
        if r.random() < .9: kw['length'] = r.choice([max(3, len(s) - 1), max(3, len(s)), max(3, len(s) + 1), r.randint(3, 3 + len(s)), max(3, len(s) // 2), max(3, len(s) - 3), 3, 255])
        if r.random() < .3: kw['end'] = r.choice(['', '…', '..', '[...]'[:kw.get('length', 9)]])
        if r.random() < .25: kw['killwords'] = r.choice([True, False])
        if r.random() < .6: kw['maxdrop'] = r.choice([0, 1, 2, 3, 4, 5, 100])
        if r.random() < .4: kw['leeway'] = r.choice([0, 1, 2, 5])
    if f == 'unique' and r.random() < .5: kw['strip'] = r.choice([True, False])
    if f == 'dedent' and r.random() < .6: kw['full'] = r.choice([True, False, False])
    if f == 'doctype' and r.random() < .5: kw['value'] = r.choice(['xml', 'html5', 'x y'])
    return kw

@suite('C16', 'functions', 3)
def functions(r, size):
    f = r.choice(['crop', 'crop', 'truncate', 'merge', 'unique', 'unique', 'dedent', 'dedent', 'inline', 'lower', 'upper', 'doctype'])
    s = rlines(r) if f in ('dedent', 'unique') and r.random() < .8 else rtext(r)
    return dict(f=f, s=s, kw=args_for(r, f, s), pos=r.random() < .3)
def sig(f): return dict(crop=['length', 'end', 'killwords', 'maxdrop', 'leeway'], truncate=['length', 'end', 'killwords', 'maxdrop', 'leeway'], unique=['strip'], dedent=['full'], doctype=['value']).get(f, [])
def right(f, s, kw, got):
    if f == 'dedent' and kw.get('full', True): return dedented(s, got), '(dedented)'
    w = ORACLE[f](s, **kw)
    return got == w, w
def check_functions(case):
    import hypertag.std.builtins as b
    f, s, kw = case['f'], case['s'], case['kw']
    fn = getattr(b, f)
    def how(kw):
        args = []; kw = dict(kw)
        if case['pos']:
            for n in sig(f):
                if n not in kw: break
                args.append(kw.pop(n))
        return args, kw
    a, k = how(kw)
    got = fn(s, *a, **k)
    good, want = right(f, s, kw, got)
    if not good: return '%s(%r, %s) is %r, expected %r' % (f, s, kw, got, want)
    ktext = [repr(x) for x in a] + ['%s=%r' % i for i in k.items()]
    # in scripts: as a function, as a filter, as a tag
    for form, script in (('function', '$ put(%s(%s))' % (f, ', '.join(['x'] + ktext))), ('filter', '$ put(x : %s%s)' % (f, '(%s)' % ', '.join(ktext) if ktext else '')), ('built-in module', 'from hypertag.builtins import $%s\n$ put(%s(%s))' % (f, f, ', '.join(['x'] + ktext)))):
        res = []
        r = observe(lambda: runtime().render('context $x, $put\n' + script, x=s, put=res.append))
        if 'error' in r: return '%s as %s raised %s: %s' % (f, form, r['error'][0], r['msg'])
        if res != [got]: return '%s as a %s gives %r, called directly %r (%r, %s)' % (f, form, res, got, s, kw)
    if f in ('crop', 'truncate'): return
    atext = ''.join(' %s%s' % (('', '{%r}' % v if not isinstance(v, str) else '"%s"' % v) if False else (n + '=', '{%r}' % v if not isinstance(v, str) else '"%s"' % v)) for n, v in kw.items())
    for imp in ('', 'from hypertag.builtins import %%%s\n' % f):
        body = []
        tag = 'context $x, %%spy\n%s%s : spy%s / $x' % (imp, f, '') if not atext else 'context $x, %%spy\n%s%s%s : spy / $x' % (imp, f, atext)
        tag = tag.replace('%%', '%')
        from hypertag import Tag
        class Spy(Tag):
            name = 'spy'
            def expand(self, b, attrs, kwattrs):
                body.append(b.render()); return body[-1]
        r = observe(lambda: runtime().render(tag, __tags__={'spy': Spy()}, x=s))
        if 'error' in r: return '%s as a tag raised %s: %s' % (f, r['error'][0], r['msg'])
        want = fn(body[-1], **kw)
        if r['out'] != want and '\n' + r['out'] != want: return '%s as a tag on body %r gives %r, the function gives %r' % (f, body[-1], r['out'], want)
        if '\n' not in s and body[-1] != s: return 'body of the tag is %r, expected %r' % (body[-1], s)
SUITES['C16'][0] = SUITES['C16'][0][:3] + (check_functions,)

@suite('C16', 'iterators', 2)
def iterators(r, size):
    val = lambda: r.choice([0, 1, 2, 'a', 'b', None, True, 1.5, ''])
    if r.random() < .45:
        return dict(f='changes', seq=[val() if r.random() < .5 else r.choice([1, 1, 2]) for _ in range(r.choice([0, 1, 2, 3, 6, 10]))], first=r.choice([None, True, False, 'x']), kind=r.choice(['list', 'tuple', 'iter', 'gen']))
    return dict(f='cycle', seqs=[[val() for _ in range(r.choice([1, 1, 2, 3, 4, 5] if j else [0, 1, 2, 3, 5]))] for j in range(r.choice([0, 1, 2, 3]))], stop=r.choice([None, 'first', 'longest', False]), kind=r.choice(['list', 'tuple', 'iter', 'gen']), n=r.choice([1, 5, 9]))
MK = dict(list=list, tuple=tuple, iter=iter, gen=lambda x: (y for y in x))
def check_iterators(case):
    import hypertag.std.builtins as b
    mk = MK[case['kind']]
    if case['f'] == 'changes':
        seq = case['seq']; kw = {} if case['first'] is None else dict(first=case['first'])
        got = [tuple(x) for x in b.changes(mk(seq), **kw)]
        want = [(x, kw.get('first', True) if i == 0 else bool(x != seq[i - 1])) for i, x in enumerate(seq)]
        if show(got) != show(want): return 'changes(%r, %s): %r, expected %r' % (seq, kw, got, want)
        pairs = []
        r = observe(lambda: runtime().render('context $seq, $put, $kw\nfor x, c in changes(seq%s)\n  $ put((x, c))' % ('' if not kw else ', first=kw'), seq=mk(seq), put=pairs.append, kw=case['first']))
        if 'error' in r: return 'changes in a script raised %s: %s' % (r['error'][0], r['msg'])
        if show(pairs) != show(want): return 'changes in a script: %r, expected %r' % (pairs, want)
        return
    seqs, stop = case['seqs'], case['stop']
    kw = {} if stop is None else dict(stop=stop)
    n = 0 if not seqs else {None: len(seqs[0]), 'first': len(seqs[0]), 'longest': max(map(len, seqs)), False: case['n']}[stop]
    if seqs and not all(seqs): n = 0
    want = [tuple(s[i % len(s)] for s in seqs) for i in range(n)]
    g = b.cycle(*[mk(s) for s in seqs], **kw)
    got = list(itertools.islice(g, n + (0 if stop is False else 5)))
    if show([tuple(x) for x in got]) != show(want): return 'cycle(%r, %s): %r, expected %r' % (seqs, kw, got, want)
    if len(seqs) == 2 and stop is not False:
        pairs = []
        r = observe(lambda: runtime().render('context $a, $b, $put, $kw\nfor x, c in cycle(a, b%s)\n  $ put((x, c))' % ('' if not kw else ', stop=kw'), a=mk(seqs[0]), b=mk(seqs[1]), put=pairs.append, kw=stop))
        if 'error' in r: return 'cycle in a script raised %s: %s' % (r['error'][0], r['msg'])
        if show(pairs) != show(want): return 'cycle in a script: %r, expected %r' % (pairs, want)
SUITES['C16'][1] = SUITES['C16'][1][:3] + (check_iterators,)
