from html.parser import HTMLParser
from .gen import *
from .common import Helpers

class Reader(HTMLParser):
    "the sequence of tags, attributes and text that an HTML parser reads"
    def __init__(self):
        super().__init__(convert_charrefs=True); self.out = []
    def handle_starttag(self, tag, attrs): self.out.append(['start', tag, [list(a) for a in attrs]])
    def handle_endtag(self, tag): self.out.append(['end', tag])
    def handle_startendtag(self, tag, attrs): self.out.append(['void', tag, [list(a) for a in attrs]])
    def handle_data(self, data):
        if self.out and self.out[-1][0] == 'data': self.out[-1][1] += data
        else: self.out.append(['data', data])
    def handle_comment(self, data): self.out.append(['comment', data])
    def handle_decl(self, d): self.out.append(['decl', d])
    def handle_pi(self, d): self.out.append(['pi', d])
def read(s):
    p = Reader(); p.feed(s); p.close(); return p.out

CHARS = ['&', '<', '>', '"', "'", '&amp;', '&quot;', '&#39;', '&lt', '=', ' ', '  ', 'a', 'B1', '\n', '\t', '\r', '\r\n', '/', '>x', 'ż', '😀', '\u2768', '\xa0', '$', '{', '%', '`', '\\', '--', '\x7f', '\u2028']
def attrval(r):
    k = r.random()
    if k < .7: return ''.join(r.choice(CHARS) for _ in range(r.choice([0, 1, 1, 2, 3, 5])))
    if k < .78: return True
    if k < .86: return False
    return r.choice([0, 12, -3, {'float': '1.5'}, None, {'obj': '<"&\'>'}, {'html': 'a"b'}, {'bytes': 'x'}, {'strsub': 'a&'}, {'float': '3.14159265358979'}, ['a', '<'], {'tuple': ['x', 1]}])

ATTRS = ['id', 'title', 'href', 'data-x', 'class', 'style', 'on_click', 'ns:k', 'x.y', 'ąę', 'if', 'class_', 'DATA', 'self', 'name', 'body', 'tag', 'state', 'attrs']
TEXTS = ['', 'abc', 'x <y> &', '&amp;', '"q"', 'ż😀', 'a  b']

@suite('C02', 'readback', 2)
def readback(r, size):
    """elements written with attributes in all forms; `tree`: what must be read back: [name, attrs, children] or a text"""
    vars = {}; tmp = []
    lines = ['']
    def var(v):
        n = 'w%d' % len(vars); vars[n] = v; return n
    def attrs():
        src = ''; res = []; names = r.sample(ATTRS, r.choice([0, 1, 1, 2, 3, 4]))
        idx = {}
        def add(n, v):
            if n in idx: res[idx[n]][1] += ' ' + v
            else: idx[n] = len(res); res.append([n, v])
        for _ in range(r.choice([0, 0, 1, 2])):
            sym, n = r.choice([('.', 'class'), ('.', 'class'), ('#', 'id')])
            v = r.choice(['c1', 'c-2', 'A_b', '3'])
            if r.random() < .25: v = r.choice(['x y', 'a&b', '<"']); src += sym + '{%s}' % var(v)
            else: src += sym + v
            add(n, v)
        for n in names:
            if n in idx:
                v = attrval(r)
                while not isinstance(v, str): v = attrval(r)
            else: v = attrval(r)
            k = r.random()
            if isinstance(v, bool) and k < .5: s = str(v)
            elif isinstance(v, int) and not isinstance(v, bool) and v >= 0 and k < .5: s = str(v)
            elif isinstance(v, str) and k < .5 and not set(v) & set('\n\r"$\'{}\\') and v.isprintable(): s = r.choice(['"%s"', "'%s'"]) % v
            elif k < .75: s = '$' + var(v)
            else: s = '{%s}' % var(v)
            src += ' ' + n + r.choice(['=', '=', ' = ']) + s
            add(n, v)
            if isinstance(v, str) and r.random() < .2:
                v = r.choice(['more', 'x&', "'"]); src += ' %s=%s' % (n, '"%s"' % v); add(n, v)
            if r.random() < .2:
                sep = ' '                                            # shortcuts among the other attributes
                for _ in range(r.choice([1, 1, 2])):
                    sym, m = r.choice([('.', 'class'), ('.', 'class'), ('#', 'id')])
                    if m in idx and not isinstance(res[idx[m]][1], str) or m in names: continue
                    v = r.choice(['d1', 'd-2', 'B_c', '-x', '_7'])
                    if r.random() < .2: v = r.choice(['x y', 'a&b', '<"']); src += sep + sym + ('{%s}' % var(v) if r.random() < .5 else '$' + var(v))
                    else: src += sep + sym + v
                    sep = r.choice(['', ' ']) if '$' not in src[-5:] else ' '; add(m, v)
        return src, res
    def element(depth, ind):
        chain = [r.choice(TAGNAMES + ['custom']) for _ in range(r.choice([1, 1, 2, 3]))]
        top = cur = None; src = []
        for n in chain:
            a, res = attrs()
            if n == 'custom':
                name = r.choice(['my-tag', 'x-Y', 'fancy.w', 'p']); src.append('custom%s' % '' + ' "%s"' % name + (' ' + a.lstrip() if a and not a.startswith(('.', '#')) else ''))
                if a.startswith(('.', '#')): res = []
            else: name = n; src.append(n + a)
            e = [name, res, []]
            if cur is not None: cur[2].append(e)
            else: top = e
            cur = e
        s = ind + r.choice([': ', ' : ']).join(src)
        k = r.random()
        if k < .25 or depth == 0:
            if r.random() < .4:
                a, res = attrs(); n = r.choice(['br', 'img', 'INPUT', 'hr'])
                s += ' : ' + n + a; cur[2].append([n, res, None])
                lines.append(s); return top
            t = r.choice(TEXTS)
            if t: s += ' | ' + t; cur[2].append(t)
            lines.append(s)
        else:
            t = r.choice(TEXTS)
            s += ':'
            if t and r.random() < .5: s += ' | ' + t; cur[2].append(t)
            lines.append(s)
            for _ in range(r.choice([1, 2, 3])): cur[2].append(element(depth - 1, ind + '  '))
        return top
    tree = [element(min(size, 3), '') for _ in range(r.choice([1, 2]))]
    lines[0] = 'context ' + ', '.join('$' + v for v in vars) if vars else ''
    return dict(script='\n'.join(lines), vars=vars, tree=tree)

def check_readback(case):
    r = render(dict(case, helpers=False))
    if 'error' in r: return 'raised %s: %s' % (r['error'][0], r['msg'])
    want = []
    def walk(t):
        if isinstance(t, str): want.append(['data', t]); return
        name, attrs, kids = t
        attrs = [[n.lower(), None if v is True else str(decode(v))] for n, v in attrs if v is not False]
        if kids is None: want.append(['void', name.lower(), attrs]); return
        want.append(['start', name.lower(), attrs])
        for k in kids: walk(k)
        want.append(['end', name.lower()])
    for t in case['tree']: walk(t)
    got = [e for e in read(r['out']) if not (e[0] == 'data' and not e[1].strip())]
    for e in got:
        if e[0] == 'data': e[1] = e[1].strip()
    if got != want:
        d = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        return 'an HTML parser reads %r, expected %r (output %r)' % (got[d:d + 2], want[d:d + 2], r['out'][:300])
SUITES['C02'] = [(n, w, g, check_readback) for n, w, g, t in SUITES['C02']]

suite('C02', 'programs')(general(Profile(attrs=.9, void=.15, bool_attr=.3, weights=dict(tags=9), specials=.5)))

@suite('C02', 'void', .4)
def void(r, size):
    "a void tag accepts an empty body only"
    name = r.choice(['br', 'img', 'HR', 'input', 'meta', 'WBR', 'link', 'area', 'base', 'col', 'command', 'embed', 'param', 'source', 'track'])
    k = r.random()
    if k < .5:
        body = r.choice([' | x', ' / <b>', ' ! $', '\n  p', ':\n  | x', ' : p', ' : b | x', "\n  if True\n    | y", ' | {1}', "\n  for i in [1, 2]\n    p | $i", ' : .\n   | x'])
        return dict(script=name + r.choice(['', ' title="a"']) + body, expect=dict(error='*'), helpers=False)
    body = r.choice(['', '', ':', '\n  pass', '\n  if False\n     | x', '\n  $a = 1', "\n  for i in []\n    | x", ' -- note', '\n   -- note', '\n  ? {1/0}'.replace('? ', '?| '), '\n   %H | x'])
    return dict(script=name + ' title="a&b"' + body, expect=dict(out='<%s title="a&amp;b" />' % name), helpers=False)

@suite('C02', 'external', .6)
def external(r, size):
    "external tags receive the attributes exactly as given"
    vals = [r.choice([1, 'x', 'a b', None, True, {'tuple': [1, 2]}, ['q'], {'float': '0.25'}]) for _ in range(r.choice([0, 1, 2, 3]))]
    pos = vals[:r.randrange(len(vals) + 1)]; named = dict(zip(r.sample(ATTRS, len(vals)), vals[len(pos):]))
    vars = {'w%d' % i: v for i, v in enumerate(vals)}
    src = 'E' + ''.join(' {w%d}' % i for i in range(len(pos))) + ''.join(' %s=$w%d' % (n, i + len(pos)) for i, n in enumerate(named))
    body = r.choice(['', 'abc', 'x y'])
    out = '[%s|%s|%s]' % (body, json.dumps(show([decode(v) for v in pos])), json.dumps(show({k: decode(v) for k, v in named.items()})))
    return dict(script='context %%E%s\n%s' % (''.join(', $' + v for v in vars), src + (' | ' + body if body else '')), vars=vars, tags={'E': 'attrs'}, expect=dict(out=out), helpers=False)
