"""
Bounded checks: the real code is run on generated inputs and compared with an independent oracle (PyPy, the interpreter the project is
built with). They stand in for the functions that are not under a discharged contract and search the failing input of a refuted one.
"""
import sys, os, random, json, traceback, time
from vc import boot

SUITES = {}         # property -> [(name, weight, gen, test)]
def suite(prop, name, weight=1, test=None):
    "decorates gen(r, size) -> case (JSON-able dict)"
    def deco(gen):
        for p in (prop if isinstance(prop, (list, tuple)) else [prop]):
            SUITES.setdefault(p, []).append((name, weight, gen, test or check_render))
        return gen
    return deco

class Skip(Exception): "the generated case is not usable"

# ------------------------------------------------------------------------------------------------- helper functions for scripts

class Stop(BaseException): pass

class Helpers:
    "functions passed to scripts; calls are recorded in `trace`"
    names = ['t', 'boom', 'halt', 'upto', 'fn', 'mk', 'gen']
    def __init__(self):
        self.trace = []; self.counts = {}
    def t(self, id, v=None):
        self.trace.append(id); return v
    def boom(self, id, kind='ValueError'):
        self.trace.append(id)
        raise {'ValueError': ValueError, 'KeyError': KeyError, 'ZeroDivisionError': ZeroDivisionError, 'AssertionError': AssertionError, 'StopIteration': StopIteration, 'TypeError': TypeError,
               'NameError': NameError, 'UnboundLocalError': UnboundLocalError, 'SyntaxError': SyntaxError, 'OSError': OSError, 'AttributeError': AttributeError, 'RuntimeError': RuntimeError}[kind](id)
    def halt(self, id, kind='KeyboardInterrupt'):
        self.trace.append(id)
        raise {'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit, 'GeneratorExit': GeneratorExit}[kind](id)
    def upto(self, id, n):
        "True in the first n calls, then False and starts over"
        self.trace.append(id)
        c = self.counts.get(id, 0)
        self.counts[id] = 0 if c >= n else c + 1
        return c < n
    def fn(self, id, *args, **kwargs):
        self.trace.append([id, show(list(args)), show(kwargs)])
        return '<%s>' % id
    def mk(self, kind, *args):
        return {'list': list, 'tuple': tuple, 'iter': iter, 'gen': lambda x: (y for y in x), 'set': set, 'dict': dict.fromkeys, 'str': str}[kind](*args)
    def gen(self, id, items, fail=None):
        "a generator that logs its steps and fails before item no. `fail`"
        for i, x in enumerate(items):
            if i == fail: raise ValueError(id)
            self.trace.append('%s:%d' % (id, i)); yield x
    def env(self): return {n: getattr(self, n) for n in self.names}

def show(v):
    "a JSON-able form of a value that distinguishes types"
    if isinstance(v, (list, tuple)): return [type(v).__name__] + [show(x) for x in v]
    if isinstance(v, (set, frozenset)): return [type(v).__name__] + sorted(json.dumps(show(x)) for x in v)
    if isinstance(v, dict): return ['dict'] + [[show(k), show(x)] for k, x in v.items()]
    if v is None or isinstance(v, (bool, str)): return v
    if isinstance(v, (int, float)): return [type(v).__name__, repr(v)]
    return [type(v).__name__]

def decode(spec):
    "value of a JSON-able description"
    if isinstance(spec, dict):
        (k, x), = spec.items()
        if k == 'tuple': return tuple(decode(y) for y in x)
        if k == 'set': return set(decode(y) for y in x)
        if k == 'dict': return {decode(a): decode(b) for a, b in x}
        if k == 'float': return float(x)
        if k == 'obj': return Thing(x)
        if k == 'html': return HtmlThing(x)
        if k == 'bytes': return x.encode()
        if k == 'complex': return complex(x)
        if k == 'strsub': return Str(x)
        raise ValueError(spec)
    if isinstance(spec, list): return [decode(x) for x in spec]
    return spec

class Thing:
    "a user object with its own string form"
    def __init__(self, s): self.s = s
    def __str__(self): return self.s
    def __repr__(self): return 'Thing(%s)' % self.s
    def __eq__(self, o): return isinstance(o, Thing) and o.s == self.s
    def __hash__(self): return hash(self.s)

class HtmlThing(Thing):
    "a user object with other representations, besides the string form that counts"
    def __html__(self): return '<i>' + self.s + '</i>'
    __unicode__ = render = _repr_html_ = __html__
    def __format__(self, spec): return 'format(%s)' % self.s
    def __bytes__(self): return b'bytes'

class Str(str):
    "a string with its own string form"
    def __str__(self): return 'str(' + str.__str__(self) + ')'
    def __html__(self): return str.__str__(self)
    def __format__(self, spec): return 'format'

def runtime(**kw):
    from hypertag import HyperHTML
    return HyperHTML(**kw)

def exc_names(e): return [c.__name__ for c in type(e).__mro__ if c is not object]

LIMIT = (KeyboardInterrupt, SystemExit, GeneratorExit)
def observe(fn):
    try: return dict(out=fn())
    except LIMIT as e: return dict(error=exc_names(e), msg=str(e)[:400])
    except Exception as e: return dict(error=exc_names(e), msg=str(e)[:400])

def render(case, rt=None):
    h = Helpers()
    env = h.env() if case.get('helpers', True) else {}
    for k, v in case.get('vars', {}).items(): env[k] = decode(v)
    tags = {k: make_tag(k, v) for k, v in case.get('tags', {}).items()} or None
    def go(): return (rt or runtime()).render(case['script'], __tags__=tags, **env)
    r = observe(go)
    r['trace'] = h.trace
    return r

def make_tag(name, kind):
    from hypertag import Tag
    class T(Tag):
        def expand(self, body, attrs, kwattrs):
            b = body.render()
            if kind == 'attrs': return '[%s|%s|%s]' % (b, json.dumps(show(list(attrs))), json.dumps(show(dict(kwattrs))))
            return '[%s]' % b
    T.name = name
    t = T(); t.name = name
    return t

def compare(case, r):
    want = case['expect']
    if 'error' in want:
        if 'error' not in r: return 'expected %s, rendered %r' % (want['error'], r['out'])
        if want['error'] not in r['error'] and want['error'] != '*': return 'expected %s, raised %s: %s' % (want['error'], r['error'][0], r['msg'])
        for s in want.get('contains', ()):
            if s not in r['msg']: return 'error message should contain %r: %s: %s' % (s, r['error'][0], r['msg'])
    elif 'out' in want:
        if 'error' in r: return 'raised %s: %s; expected output %r' % (r['error'][0], r['msg'], want['out'])
        if r['out'] != want['out']: return 'rendered %r, expected %r' % (r['out'], want['out'])
    if 'trace' in case and case['trace'] != r['trace']: return 'sequence of calls %r, expected %r' % (r['trace'], case['trace'])

def check_render(case):
    return compare(case, render(case))

# ------------------------------------------------------------------------------------------------- random ingredients

SPECIALS = '&<>"\''
UNICODE = ['ż', 'Ł', '漢', '😀', '\u2768', '\u2769', '\u276a', '\u276b', '\u276c', '\x7f', '\xa0', '\u200b', '\u3000', '\u202e', '\ufeff', 'é', '\x01']
def chars(r, n, alphabet): return ''.join(r.choice(alphabet) for _ in range(n))
WORDS = ['a', 'bb', 'Cat', 'x1', 'dog', 'Ala ma kota', 'q.w', '1,2', 'e-f', '(z)', 'p | q', '!', '@', '%', '#', ';', '*', '=', '[k]', '--', '~', '\\', '/', ':', '?', '-', '&amp;', '&', '<', '>', '<b>', '</b>', '"', "'", 'a&b', '&lt;', '&#38;', '&&amp;']
def plain(r, n=None):
    "plain text without leading/trailing whitespace, non-empty"
    n = n or r.choice([1, 1, 2, 3, 4])
    parts = []
    for _ in range(n): parts.append(r.choice(UNICODE[:9]) if r.random() < .12 else r.choice(WORDS))
    s = r.choice(['', ' ', ' ', '  ']).join(parts).strip()
    return s or 'w'
def word(r): return r.choice(['a', 'bb', 'Cat', 'x1', 'dog', 'zażółć', 'k2', 'End'])

def case_size(i): return 1 + min(i // 12, 6)
