"Random expressions, printed for Hypertag (minimal parentheses) and for Python (all parentheses)."
from .common import *

# precedence levels of Hypertag's grammar; X(level, hypertag source, python source)
IF, OR, AND, NOT, CMP, CAT, PIPE, BOR, XOR, BAND, SHIFT, ARITH, TERM, POW, FACTOR = range(15)
class X:
    def __init__(self, level, h, p, ext=False): self.level, self.h, self.p, self.ext = level, h, p, ext    # ext: uses an extension of Python's syntax
    def at(self, level):
        h = self.h if self.level >= level else '(%s)' % self.h
        return h
    def sub(self):
        "to be followed by a trailer"
        return '(%s)' % self.h if self.level < FACTOR or self.h[-1] in '?!' else self.h
    def item(self):
        "to be used where a colon is not a pipeline"
        return '(%s)' % self.h if self.level <= PIPE and ':' in self.h else self.h

class Quirk(BaseException): pass

class Py:
    "helpers for the Python side: Hypertag's extensions"
    @staticmethod
    def cat(*xs): return ''.join(str(x()) for x in xs)
    class NoneString(Exception): pass
    @staticmethod
    def cat(*xs):
        out = ''
        for x in xs:
            v = x()
            if v is None: raise Py.NoneString()
            out += str(v)
        return out
    class FalseValue(Exception): pass
    @staticmethod
    def q(kind, x):
        if kind == '?':
            try: return x() or ''
            except Exception: return ''
        v = x()
        if not v: raise Py.FalseValue()
        return v
    @staticmethod
    def neg(x):
        if x is None: raise Quirk()       # -None is None in Hypertag: not compared
        return -x
    env = dict(cat_=lambda *a: Py.cat(*a), q_=lambda *a: Py.q(*a), neg_=lambda x: Py.neg(x))

class Exprs:
    def __init__(self, r, vars, quals=0., ext=.12, trace=.3, fail=.04):
        "vars: {name: type}, types: int str bool list dict any fun obj"
        self.r, self.vars, self.quals, self.ext, self.tr, self.fail = r, vars, quals, ext, trace, fail
        self.n = 0
    def id(self): self.n += 1; return "'k%d'" % self.n
    def var(self, t):
        c = [n for n, k in self.vars.items() if k == t]
        return self.r.choice(c) if c else None
    def any(self, d):
        if d > 0 and self.vars.get('ob') == 'obj' and self.r.random() < .08: return self.misc(d)
        return getattr(self, self.r.choice(['int', 'int', 'str', 'str', 'bool', 'list', 'tuple', 'dict', 'none']))(d)
    def typed(self, t, d):
        if self.r.random() < self.fail: t = self.r.choice(['int', 'str', 'list', 'none', 'bool'])
        e = getattr(self, t)(d)
        r = self.r
        if d > 0 and r.random() < .1:
            c, o = self.any(d - 1), self.typed(t, d - 1) if r.random() < .6 else getattr(self, t)(d - 1)
            if r.random() < .15: o = self.cond(o, t, d)
            k = r.random()
            if k < .6: e = X(IF, '%s if %s else %s' % (e.at(OR), c.at(OR), o.at(IF)), '(%s if %s else %s)' % (e.p, c.p, o.p))
            elif k < .8: e = X(AND, '%s and %s' % (c.at(NOT), e.at(NOT)), '(%s and %s)' % (c.p, e.p))
            elif k < .9: e = X(OR, '%s or %s' % (e.at(AND), o.at(AND)), '(%s or %s)' % (e.p, o.p))
            elif t == 'str': e = X(IF, '%s if %s' % (e.at(OR), c.at(OR)), "(%s if %s else '')" % (e.p, c.p), True)
        if r.random() < self.tr * .4: i = self.id(); e = X(FACTOR, 't(%s, %s)' % (i, e.h), 't(%s, %s)' % (i, e.p))
        if r.random() < self.quals and '\n' not in e.h:
            k = r.choice('?!'); e = X(FACTOR, (e.h if e.level >= FACTOR and e.h[-1] not in '?!' else '(%s)' % e.h) + k, "q_('%s', lambda: %s)" % (k, e.p), True)
        return e
    def cond(self, o, t, d):
        "a further if-else in the place of an else"
        e, c = self.typed(t, d - 2), self.any(d - 2)
        return X(IF, '%s if %s else %s' % (e.at(OR), c.at(OR), o.at(IF)), '(%s if %s else %s)' % (e.p, c.p, o.p))
    def misc(self, d):
        "members, items and slices of anything"
        r = self.r
        b = r.choice([self.lit('ob'), self.lit('ob'), self.lit('dd'), self.lit('l'), self.lit('s')] + [self.any(d - 1)])
        h, p = b.sub(), b.p
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            if k < .3: t = r.choice(['.a', '.b', '.real', '.zip']); h, p = h + t, p + t
            elif k < .4: t = r.choice([".get('a')", ".count('a')", '.upper()', '.copy()', '.index(2)', ".get('zz', 5)"]); h, p = h + t, p + t
            elif k < .6: e = self.typed(r.choice(['int', 'str']), d - 2); h, p = '%s[%s]' % (h, e.item()), '%s[%s]' % (p, e.p)
            else:
                parts = [r.choice([X(FACTOR, '', ''), X(FACTOR, '0', '0'), X(FACTOR, '-1', '-1'), X(FACTOR, 'None', 'None'), X(FACTOR, 'False', 'False'), self.int(d - 2), X(FACTOR, '2', '2')]) for _ in range(r.choice([2, 2, 3]))]
                h, p = '%s[%s]' % (h, ':'.join(x.item() for x in parts)), '%s[%s]' % (p, ':'.join(x.p for x in parts))
        return X(FACTOR, h, p)
    def none(self, d): return X(FACTOR, 'None', 'None')
    def binop(self, d, level, ops, t, t2=None):
        r = self.r
        a = self.typed(t, d - 1); h, p = a.at(level), a.p
        for _ in range(r.choice([1, 1, 2])):
            op = r.choice(ops); b = self.typed(t2 or t, d - 1)
            sp = r.choice([' %s ', ' %s ', '%s']) if op not in ('in', 'not in', 'is', 'is not', '|', '//', '/') else ' %s '
            if h[-1] in '?!': sp = ' %s '
            h, p = h + sp % op + b.at(level + 1), '(%s %s %s)' % (p, op, b.p)
        return X(level, h, p)
    def lit(self, s): return X(FACTOR, s, s)
    def int(self, d):
        r = self.r; k = r.random(); v = self.var('int')
        if d <= 0 or k < .25:
            if v and r.random() < .6: return X(FACTOR, v, v)
            return self.lit(r.choice(['0', '1', '2', '3', '5', '10', '.5', '1.5', '2e1', '3.', '1E-1', '2e+1', '.5E+1', '0.25', '12']))
        if k < .45: return self.binop(d, ARITH, ['+', '-'], 'int')
        if k < .58:
            e = self.binop(d, TERM, ['*', '/', '//', '%'], 'int')
            return e
        if k < .64:
            a = self.typed('int', d - 1); b = r.choice(['0', '1', '2', '3'])
            if r.random() < .3: return X(POW, '%s ** 2 ** %s' % (a.at(FACTOR), b), '(%s ** (2 ** %s))' % (a.p, b))
            return X(POW, '%s ** %s' % (a.at(FACTOR), b), '(%s ** %s)' % (a.p, b))
        if k < .68: a = self.typed('int', d - 1); b = r.choice(['0', '1', '4']); op = r.choice(['<<', '>>']); return X(SHIFT, '%s %s %s' % (a.at(ARITH), op, b), '(%s %s %s)' % (a.p, op, b))
        if k < .76:
            lv, op = r.choice([(BAND, '&'), (XOR, '^'), (BOR, '|')])
            return self.binop(d, lv, [op], 'int')
        if k < .82:
            a = self.typed('int', d - 1); return X(ARITH, '-%s%s' % (r.choice(['', '']), a.at(TERM)), 'neg_(%s)' % a.p)
        if k < .87:
            a = self.typed('int', d - 1); b = self.typed('int', d - 1)
            return X(ARITH, '-%s - %s' % (a.at(TERM), b.at(TERM)), '(neg_(%s) - %s)' % (a.p, b.p))
        if k < .92: a = self.typed(r.choice(['str', 'list', 'tuple', 'dict']), d - 1); return X(FACTOR, 'len(%s)' % a.h, 'len(%s)' % a.p)
        if k < .96: a = self.typed('list', d - 1); b = self.typed('int', d - 1); return X(FACTOR, '%s[%s]' % (a.sub(), b.item()), '%s[%s]' % (a.p, b.p))
        return self.call(d)
    def call(self, d):
        "a function that records its arguments"
        r = self.r; pos = [self.any(d - 1) for _ in range(r.choice([0, 1, 2]))]; kw = [(n, self.any(d - 1)) for n in r.sample(['a', 'b', 'key', 'Trueish', 'x1'], r.choice([0, 0, 1, 2]))]
        i = self.id()
        h = ', '.join([i] + [a.h for a in pos] + ['%s=%s' % (n, a.h) for n, a in kw]) + r.choice(['', '', ','])
        p = ', '.join([i] + [a.p for a in pos] + ['%s=%s' % (n, a.p) for n, a in kw])
        return X(FACTOR, 'fn(%s)' % h, 'fn(%s)' % p)
    def str(self, d):
        r = self.r; k = r.random(); v = self.var('str')
        if d <= 0 or k < .25:
            if v and r.random() < .6: return X(FACTOR, v, v)
            s = r.choice(["''", "'a'", '"bc"', "'x y'", "'Ala'", "'%s-%s'", "'&<'", "r'raw'", "'ż'", "'True'", "'is it'"])
            return X(FACTOR, s, s)
        if k < .4: return self.binop(d, ARITH, ['+'], 'str')
        if k < .4 + self.ext:
            xs = [self.typed(r.choice(['str', 'int', 'str']), d - 1) for _ in range(r.choice([2, 2, 3]))]
            xs = [x if x.level >= PIPE and x.h[0] not in '-([{.' and ' ' not in x.h and x.h[-1] not in '?!' or i == 0 and x.level >= PIPE else self.str(0) for i, x in enumerate(xs)]
            return X(CAT, '  '.join(x.at(PIPE) for x in xs), 'cat_(%s)' % ', '.join('lambda: ' + x.p for x in xs), True)
        if k < .4 + 2 * self.ext:
            x = self.any(d - 1)
            h, p = x.at(BOR), x.p
            for _ in range(r.choice([1, 1, 2])):
                if r.random() < .4: h, p = h + r.choice([':', ' : ', ': ']) + 'str', 'str(%s)' % p
                else:
                    i = self.id(); bs = [self.any(d - 2) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
                    ks = [''] * len(bs) if r.random() < .5 else sorted(['' if r.random() < .5 else 'k%d=' % j for j in range(len(bs))])
                    hs, ps = ([i] + [k + getattr(b, a) for k, b in zip(ks, bs)] for a in 'hp')
                    h, p = h + r.choice([':', ' : ']) + 'gn(%s)' % ', '.join(hs), 'gn(%s)' % ', '.join([p] + ps)
            return X(PIPE, h, p, True)
        if k < .7: a = self.typed('str', d - 1); m = r.choice(['.upper()', '.strip()', ".replace('a', 'b')", ".split(' ')[0]", '.title()', '[0]', '[-1]', '[1:]', '[:2]', '[::-1]', '[-2:]', '[:]', '[::2]', '[1:3]']); return X(FACTOR, a.sub() + m, a.p + m)
        if k < .78: a = self.any(d - 1); return X(FACTOR, 'str(%s)' % a.h, 'str(%s)' % a.p)
        if k < .84: a = self.typed('str', d - 1); n = r.choice(['0', '1', '2']); return X(TERM, '%s * %s' % (a.at(TERM), n), '(%s * %s)' % (a.p, n))
        if k < .9: a = self.typed('list', d - 1); return X(FACTOR, "'-'.join(%s)" % a.h, "'-'.join(%s)" % a.p)
        if k < .94: a = self.any(d - 1); return X(TERM, "'<%s>' % " + a.at(POW), "('<%%s>' %% %s)" % a.p)
        return self.call(d)
    def bool(self, d):
        r = self.r; k = r.random()
        if d <= 0 or k < .15: return self.lit(r.choice(['True', 'False', 'True', 'False']))
        if k < .55:
            t = r.choice(['int', 'int', 'str', 'list'])
            a = self.typed(t, d - 1); h = a.at(CAT); p = a.p
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                op = r.choice(['<', '>', '==', '!=', '<=', '>=']); b = self.typed(t, d - 1)
                h += (r.choice([' %s ', '%s']) if h[-1] not in '?!' else ' %s ') % op + b.at(CAT); p += ' %s %s' % (op, b.p)
            return X(CMP, h, '(%s)' % p)
        if k < .65: a, b = self.any(d - 1), self.typed(r.choice(['list', 'tuple', 'dict', 'str']), d - 1); op = r.choice(['in', 'not in', 'not  in']); return X(CMP, '%s %s %s' % (a.at(CAT), op, b.at(CAT)), '(%s %s %s)' % (a.p, op, b.p))
        if k < .71: a = self.any(d - 1); op = r.choice(['is', 'is not']); return X(CMP, '%s %s None' % (a.at(CAT), op), '(%s %s None)' % (a.p, op))
        if k < .8: a = self.any(d - 1); n = r.choice([1, 1, 2, 3]); return X(NOT, 'not ' * n + (a.at(CMP)), '(%s%s)' % ('not ' * n, a.p))
        a = [self.any(d - 1) for _ in range(r.choice([2, 2, 3]))]
        if k < .9: return X(AND, ' and '.join(x.at(NOT) for x in a), '(%s)' % ' and '.join(x.p for x in a))
        return X(OR, ' or '.join(x.at(AND) for x in a), '(%s)' % ' or '.join(x.p for x in a))
    def items(self, d, n=None): return [self.any(d - 1) for _ in range(self.r.choice([0, 1, 2, 3]) if n is None else n)]
    def list(self, d):
        r = self.r; v = self.var('list')
        if v and r.random() < .4:
            m = r.choice(['', '', '[1:]', '[:1]', '[::-1]', '[-1:]', '[0:2]', '[:: 2]', '[ 1 : ]']); return X(FACTOR, v + m, v + m)
        if d > 0 and r.random() < .15: return self.binop(d, ARITH, ['+'], 'list')
        if d > 0 and r.random() < .15:
            a = self.typed('list', d - 1); i, j = self.int(0), self.int(0)
            return X(FACTOR, '%s[%s:%s]' % (a.sub(), i.h, j.h), '%s[%s:%s]' % (a.p, i.p, j.p))
        xs = self.items(d); c = ',' if xs and r.random() < .2 else ''
        return X(FACTOR, '[%s%s]' % (', '.join(x.h for x in xs), c), '[%s]' % ', '.join(x.p for x in xs))
    def tuple(self, d):
        xs = self.items(d); c = ',' if len(xs) == 1 or xs and self.r.random() < .2 else ''
        return X(FACTOR, '(%s%s)' % (', '.join(x.h for x in xs), c), '(%s%s)' % (', '.join(x.p for x in xs), ',' if len(xs) == 1 else ''))
    def dict(self, d):
        r = self.r; v = self.var('dict')
        if v and r.random() < .4: return X(FACTOR, v, v)
        if r.random() < .15 and d > 0:
            xs = [self.any(d - 1) for _ in range(r.choice([1, 2]))]
            xs = [x if x.h.isalnum() and x.h not in ('l', 'dd') else X(FACTOR, 'str(%s)' % x.h, 'str(%s)' % x.p) for x in xs]       # hashable
            return X(FACTOR, '{%s}' % ', '.join(x.item() for x in xs), '{%s}' % ', '.join(x.p for x in xs))
        key = lambda x: x if all(c not in x.h for c in '[{') and x.h not in ('l', 'dd') else X(FACTOR, 'str(%s)' % x.h, 'str(%s)' % x.p)
        xs = [(key(self.typed(r.choice(['int', 'str']), d - 1)), self.any(d - 1)) for _ in range(r.choice([0, 1, 2]))]
        return X(FACTOR, '{%s}' % ', '.join('%s: %s' % (a.at(BOR), b.h) for a, b in xs), '{%s}' % ', '.join('%s: %s' % (a.p, b.p) for a, b in xs))

def expression(r, size, quals=0., **kw):
    g = Exprs(r, {'i': 'int', 'j': 'int', 's': 'str', 'z': 'str', 'l': 'list', 'dd': 'dict', 'Nonesuch': 'int', 'Truex': 'str', 'is_a': 'int', 'notx': 'int', 'ob': 'obj'}, quals=quals, **kw)
    t = r.choice(['int', 'int', 'str', 'str', 'bool', 'bool', 'list', 'tuple', 'dict'])
    return g.typed(t, min(1 + size // 2, 4))

VARS = dict(i=7, j=-2, s='abc', z='', l=[3, 'q', None, 1.5], dd={'dict': [['a', 1], [2, 'b']]}, Nonesuch=4, Truex='tt', is_a=0, notx=3)

class Ob:
    "an object that records what is asked of it"
    def __init__(self, trace, n=0): self.trace, self.n = trace, n
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        self.trace.append('member %s' % k)
        if k == 'zip' or self.n > 3: raise AttributeError(k)
        return Ob(self.trace, self.n + 1)
    def __getitem__(self, k): self.trace.append(['item', show([k.start, k.stop, k.step] if isinstance(k, slice) else k), isinstance(k, slice)]); return Ob(self.trace, self.n + 1)
    def __str__(self): return 'ob%d' % self.n
    __repr__ = __str__

class Rec(Helpers):
    "helpers that record values"
    def gn(self, x, id, *args, **kw): self.trace.append(['g', id, show(x), show(list(args)), show(kw)]); return '%s/%s' % (id, len(args))
    def put(self, v): self.result = show(v); return ''
    def env(self): return dict(Helpers.env(self), gn=self.gn, put=self.put, ob=Ob(self.trace))

def run_hyper(script, vars=VARS, extra=None):
    h = Rec(); env = h.env(); env.update({k: decode(v) for k, v in vars.items()}); env.update(extra or {})
    script = 'context ' + ', '.join('$' + n for n in env) + '\n' + script
    r = observe(lambda: runtime().render(script, **env))
    return h, r, env

def run_python(src, vars=VARS, extra=None):
    h = Rec(); env = h.env(); env.update({k: decode(v) for k, v in vars.items()}); env.update(extra or {}); env.update(Py.env)
    def go():
        v = eval(src, env)
        h.result = show(v)
    try: r = observe(go)
    except Quirk: raise Skip
    if 'error' in r and r['error'][0] in ('Skip', 'RecursionError'): raise Skip
    return h, r, env

def compare_eval(case, script):
    try: h2, r2, _ = run_python(case['py'])
    except (MemoryError, OverflowError): raise Skip
    if 'unhashable' in r2.get('msg', ''): raise Skip        # elements of a set are added as they are evaluated
    h1, r1, _ = run_hyper(script)
    what = 'expression %s' % case['expr']
    if ('error' in r1) != ('error' in r2): return '%s: %s, in Python %s' % (what, r1.get('error') and r1['error'][0] + ': ' + r1['msg'] or getattr(h1, 'result', None), r2.get('error') and r2['error'][0] + ': ' + r2['msg'] or getattr(h2, 'result', None))
    if 'error' in r1:
        a, b = r1['error'][0], r2['error'][0]
        if b in ('NoneString', 'FalseValue'): 
            if not a.endswith('Ex') and b == 'FalseValue' and a in ('TypeError', 'NameError', 'ZeroDivisionError'): return '%s raised %s: %s, expected an error of a false value' % (what, a, r1['msg'])
        elif b not in r1['error']: return '%s raised %s: %s, in Python %s: %s' % (what, a, r1['msg'], b, r2['msg'])
    elif h1.result != h2.result: return '%s evaluates to %r, in Python to %r' % (what, h1.result, h2.result)
    if h1.trace != h2.trace: return '%s: calls %r, in Python %r' % (what, h1.trace, h2.trace)
