"""
The API object I of contract harnesses, concrete implementation: the same contract is executed on the real, natively running code
with random inputs. Used to replay failed obligations (search of a failing input) and to validate the contracts and the verifier's
model of Python. Python 3.9 (PyPy) compatible.
"""
import random, sys, operator

class Reject(BaseException): "inputs do not satisfy an assumption of the contract"
class Failed(BaseException):
    def __init__(self, name, note): self.name, self.note = name, note
class Mismatch(BaseException): "the harness does not fit the code (any more)"

class Obj:
    "an arbitrary object"
    def __init__(self, name, truth): self.name, self.truth_ = name, truth
    def __bool__(self): return self.truth_
    def __repr__(self): return '<%s%s>' % (self.name, '' if self.truth_ else ' (false)')
    def __str__(self): return 'str(%s)&<">' % self.name

class StubMixin: pass
_exc_classes = {}
def stub_exc_class(base):
    if base not in _exc_classes:
        class StubError(base, StubMixin):
            def __init__(self, label, index): self.label, self.index = label, index
            def __str__(self): return 'error of %s[%s]' % (self.label, self.index)
        StubError.__name__ = 'StubError_' + base.__name__
        _exc_classes[base] = StubError
    return _exc_classes[base]

class Outcome:
    def __init__(self, value=None, exc=None): self.value, self.exc = value, exc
    @property
    def raised(self): return self.exc is not None
    def is_exc(self, cls): return isinstance(self.exc, cls)
    def __repr__(self): return 'raised %s: %s' % (type(self.exc).__name__, self.exc) if self.raised else 'returned %r' % (self.value,)

ALPHABET = ['a', 'b', ' ', '&', '<', '>', '"', "'", '\n', '\t', 'ż', '{', '$', '\u2768', '0', '.', '_', '\u2028']

class ConI:
    concrete = True
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.memo = {}; self.keep = []
        self.tr = (); self.n = 0
        self.log = []
        self.undo = []
        self.checks = {}
        self.helpers = {}       # private helpers replaced by stand-ins: called?

    # --- inputs
    def note(self, name, v): self.log.append((name, v)); return v
    def int(self, name, lo=None, hi=None):
        lo_ = -3 if lo is None else lo
        hi_ = max(lo_, 5) if hi is None else hi
        return self.note(name, self.r.randint(lo_, hi_))
    def bool(self, name): return self.note(name, self.r.random() < .5)
    def rstr(self, alphabet=None): return ''.join(self.r.choice(alphabet or ALPHABET) for _ in range(self.r.choice([0, 1, 1, 2, 3, 5])))
    def str(self, name, alphabet=None): return self.note(name, self.rstr(alphabet))
    def rval(self, name):
        k = self.r.randrange(12)
        if k == 0: return None
        if k == 1: return self.r.random() < .5
        if k == 2: return self.r.choice([0, 1, 2, -1])
        if k in (3, 4): return self.rstr()
        if k == 5: return self.r.choice([0.0, 1.5])
        if k == 6: return self.r.choice([(), (1, 2)])
        v = Obj('%s%d' % (name, len(self.keep)), self.r.random() < .7)
        self.keep.append(v)
        return v
    def val(self, name): return self.note(name, self.rval(name))
    def choice(self, name, options): return self.note(name, options[self.r.randrange(len(options))])
    def fork(self, name): return self.choice(name, [False, True])
    def key(self, x):
        if isinstance(x, (bool, int, float, str, type(None))): return (type(x).__name__, x)
        if isinstance(x, (tuple, list)): return (type(x).__name__,) + tuple(self.key(y) for y in x)
        self.keep.append(x)
        return ('id', id(x))
    def rsort(self, sort, name):
        if sort == 'int': return self.r.randint(-1, 4)
        if sort == 'bool': return self.r.random() < (.2 if 'raises' in name else .5)
        if sort == 'str': return self.rstr()
        if sort == 'val': return self.rval(name)
        raise Mismatch('sort %s' % sort)
    def f(self, name, sort, *args):
        k = (name, sort) + tuple(self.key(a) for a in args)
        if k not in self.memo:
            self.memo[k] = self.rsort(sort, name)
            self.log.append((name + repr(args), self.memo[k]))
        return self.memo[k]

    # --- objects
    def new(self, cls, _name=None, **attrs):
        obj = cls.__new__(cls)
        for k, v in attrs.items():
            if private_helper(cls, k) and callable(v): v = self.helper(cls.__name__ + '.' + k, v)
            obj.__dict__[k] = v
        return obj
    def helper(self, name, v):
        "a private helper replaced by a stand-in: nothing is concluded from a run that does not call it (it may be called something else by now)"
        self.helpers.setdefault(name, False)
        def call(*a, **k):
            self.helpers[name] = True
            return v(*a, **k)
        return call
    def track(self, obj): return obj
    def elem(self, seqname, i, obj): return self.memo.setdefault(('elem', seqname, i), obj)
    def seq(self, name, maker, n=None, tuple_=False):
        n = self._len(name, n)
        l = [maker(i) for i in range(n)]
        return tuple(l) if tuple_ else l
    def _len(self, name, n): return self.note('len_' + name, self.r.choice([0, 0, 1, 1, 2, 2, 3, 4])) if n is None else n
    def vals(self, name, n=None, sort='val', tuple_=False):
        l = [self.note('%s[%d]' % (name, i), self.rsort(sort, name)) for i in range(self._len(name, n))]
        return tuple(l) if tuple_ else l
    def interleave(self, a, b, n):
        out = []
        for i in range(n):
            out.append(a[i])
            if i < n - 1: out.append(b[i])
        return out
    def seqcat(self, *parts): return [x for p in parts for x in p]
    def list(self, items): return list(items)
    def dict(self, d=()): return dict(d)
    def generator(self, n, elem): return (elem(k) for k in range(n))

    # --- stubs
    def stub(self, fn, name='stub'): return lambda *a, **k: fn(*a, **k)
    def fn(self, name, ret='val', raises=True, base=Exception, index=None, ev=True, args=True):
        def call(*a, **k):
            key = [index] if index is not None else []
            if ev: self.event(name, *(key + list(a) + [x for kk in sorted(k) for x in (kk, k[kk])]))
            if raises and self.f(name + '_raises', 'bool', *key): self.raise_(name, index, base)
            if ret is None: return None
            if callable(ret): return ret(*a, **k)
            return self.f(name + '_ret', ret, *key)
        return call
    def raise_(self, label, index=None, base=Exception):
        k = ('exc', label, index)
        if k not in self.memo:
            subs = [base]
            if base is Exception: subs = [Exception, ValueError, TypeError, KeyError, RuntimeError, IndexError, NameError, UnboundLocalError, AssertionError]
            if base is BaseException: subs = [KeyboardInterrupt, SystemExit, GeneratorExit, Exception, ValueError, TypeError, KeyError, NameError, AssertionError]
            self.memo[k] = self.r.choice(subs)
        raise stub_exc_class(self.memo[k])(label, index)
    def exc(self, e): raise e
    def event(self, name, *args):
        self.tr = ((name,) + args, self.tr); self.n += 1
    nil = ()
    def ev(self, name, *args): return (name,) + args
    def push(self, acc, *evs):
        for e in evs: acc = (e, acc)
        return acc
    def trace(self): return self.tr
    def clear_trace(self): self.tr = (); self.n = 0
    def nevents(self): return self.n
    def rec(self, name, sort, init, step): return ConRec(init, step)
    def hints(self, h): pass
    def list_hint(self, name, elem, length=None): pass
    def index_hint(self, *a): pass

    # --- running
    def call(self, fn, *args, **kwargs): return self.outcome(lambda: fn(*args, **kwargs))
    def outcome(self, thunk):
        try: return Outcome(thunk())
        except (Reject, Failed, Mismatch): raise
        except AttributeError as ex:
            if not isinstance(ex, StubMixin): raise Mismatch('AttributeError: %s' % ex)
            return Outcome(exc=ex)
        except (Exception, KeyboardInterrupt, SystemExit, GeneratorExit) as ex: return Outcome(exc=ex)
    def run(self, fn, *args, **kwargs):
        o = self.call(fn, *args, **kwargs)
        self.check('no_exception', not o.raised, 'raised %s: %s' % (type(o.exc).__name__, o.exc))
        return o.value
    def force(self, v): return list(v)
    def getattr(self, obj, name): return getattr(obj, name)
    def contract(self, fn, handler, helper=False):
        if helper: handler = self.helper(fn.__qualname__, handler)
        mod = sys.modules[fn.__module__]
        owner = mod
        parts = fn.__qualname__.split('.')
        for p in parts[:-1]: owner = getattr(owner, p)
        self.patch(owner, parts[-1], (staticmethod(handler) if isinstance(owner.__dict__.get(parts[-1]), staticmethod) else handler))
    def cls_contract(self, cls, handler):
        raise Mismatch('class contracts are not replayed concretely')
    def patch(self, owner, name, value):
        self.undo.append((owner, name, owner.__dict__[name])); setattr(owner, name, value)

    # --- statements
    def assume(self, c):
        if not c: raise Reject()
    def check(self, name, c, note=''):
        self.checks[name] = self.checks.get(name, 0) + 1
        if not c: raise Failed(name, note)
    def fail(self, name, note=''): self.check(name, False, note)
    def same(self, a, b):
        if a is b: return True
        if isinstance(a, (bool, int, float, str, type(None))): return type(a) is type(b) and a == b
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict): return self.same(list(a.items()), list(b.items()))
        if isinstance(a, slice) and isinstance(b, slice): return self.same((a.start, a.stop, a.step), (b.start, b.stop, b.step))
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)): return type(a) is type(b) and a == b
        return False
    eq = same
    items_eq = same
    def check_seq(self, name, s, n, elem):
        self.check(name + '.length', len(s) == n, 'length %d, expected %d' % (len(s), n))
        for i in range(n): self.check(name + '.items', self.same(s[i], elem(i)), 'item %d' % i)
    def truth(self, v): return bool(v)
    def strof(self, v): return str(v)
    def and_(self, *cs): return all(cs)
    def or_(self, *cs): return any(cs)
    def not_(self, c): return not c
    def implies(self, a, b): return (not a) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def ite(self, c, a, b): return a if c else b
    def is_none(self, v): return v is None
    def op(self, opname, *args): return (opname if callable(opname) else (getattr(operator, opname, None) or getattr(operator, opname + '_')))(*args)
    def length(self, x): return len(x)
    def replace(self, s, table): return ''.join(table.get(c, c) for c in s)
    def isinst(self, x, cls): return isinstance(x, cls)

def private_helper(cls, name): return name.startswith('_') and not name.startswith('__') and callable(getattr(cls, name, None))

class ConRec:
    def __init__(self, init, step): self.vals, self.step = [init], step
    def at(self, k):
        if k < 0: return self.vals[0]
        while len(self.vals) <= k: self.vals.append(self.step(len(self.vals) - 1, self.vals[-1]))
        return self.vals[k]
    __call__ = at

def run_contract(c, seed):
    "-> ('ok'|'reject'|'failed'|'mismatch', detail, checks)"
    I = ConI(seed)
    try:
        I.prop = c.prop
        c.fn(I)
        return 'ok', None, I.checks
    except Reject: return 'reject', None, I.checks
    except Failed as f:
        if not all(I.helpers.values()): return 'mismatch', 'helper not called: %s' % [h for h in I.helpers if not I.helpers[h]], I.checks
        return 'failed', dict(obligation=f.name, note=str(f.note), inputs=[(n, repr(v)[:200]) for n, v in I.log][:60]), I.checks
    except Mismatch as m: return 'mismatch', str(m), I.checks
    finally:
        for o, n, v in reversed(I.undo): setattr(o, n, v)
def _add(cls, **fs):
    for k, f in fs.items(): setattr(cls, k, f)
def _set_of(self, s, n, elem):
    items = [elem(i) for i in range(n)]
    return isinstance(s, set) and s == set(items)
_add(ConI, zipseq=lambda self, a, b, n: [x for i in range(n) for x in (a[i], b[i])],
     dict_set=lambda self, d, k, v: dict(list(d.items()) + [(k, v)]),
     list_add=lambda self, l, *xs: l + list(xs), starlist=lambda self, args: list(args),
     seqrec=lambda self, name, elem: self.rec(name, 'list', [], lambda k, l: l + [elem(k)]),
     set_of=_set_of, op2=lambda self, op, a, b: op(a, b), contains=lambda self, c, x: x in c)
_add(ConI, dget_str=lambda self, d, k: d.get(k, ''))
_add(ConI, str_dicts=lambda self: None)
_add(ConI, setattr=lambda self, o, n, v: setattr(o, n, v), setitem=lambda self, o, k, v: o.__setitem__(k, v))

def _lines(self, name):
    al = [' ', ' ', ' ', '\t', 'a', 'b', '\r', '\u2028', '\x0b', '&', '\x0c', '\xa0']
    def line(empty): return '' if empty else ''.join(self.r.choice(al) for _ in range(self.r.choice([0, 0, 1, 2, 3, 5])))
    gap = self.r.choice([0, 0, .4, .7])
    return self.note(name, '\n'.join(line(self.r.random() < gap) for _ in range(self.r.choice([1, 1, 2, 3, 4, 6]) + (4 if gap else 0))))
def _check_lines(self, name, out, n, fn):
    l = out.split('\n')
    self.check(name + '.number', len(l) == n)
    for i in range(n): self.check(name + '.each', l[i] == fn(i), 'line %d' % i)
_add(ConI, lines=_lines, nlines=lambda self, t: t.count('\n') + 1, line=lambda self, t, i: t.split('\n')[i], check_lines=_check_lines,
     drop_prefix=lambda self, l, p: l[len(p):] if l.startswith(p) else l, startswith=lambda self, s, p: s.startswith(p))

ConI.item = lambda self, l, i: l[i]

ConI.cmp_hint = lambda self, *b: None
ConI.le_hint = lambda self, bound: None
ConI.dict_of = lambda self, name, key, val, n: {key(i): val(i) for i in range(n)}
ConI.strings_hint = lambda self: None
ConI.count_hint = lambda self, bound: None

ConI.mentions = lambda self, s, n: str(n) in s

ConI.items = lambda self, name, maker, n: [maker(i) for i in range(n)]
ConI.ite_list = lambda self, c, a, b: a if c else b()

import itertools
class _Buf:
    def __init__(self, it): self.it, self.buf = iter(it), []
    def to(self, n):
        while len(self.buf) < n:
            try: self.buf.append(next(self.it))
            except StopIteration: return
def _buf(self, it):
    k = ('buf', id(it))
    if k not in self.memo: self.memo[k] = _Buf(it); self.keep.append(it)
    return self.memo[k]
def _nth(self, it, j): b = _buf(self, it); b.to(j + 1); return b.buf[j]
def _iter_len(self, it): b = _buf(self, it); b.to(300); return None if len(b.buf) >= 300 else len(b.buf)
ConI.nth = _nth; ConI.iter_len = _iter_len
ConI.splitlines = lambda self, s: s.splitlines()

import re
ConI.strmethod = lambda self, s, name: getattr(s, name)()
ConI.resub = lambda self, pat, repl, s: re.sub(pat, repl, s)
ConI.ite_dict = lambda self, c, a, b: a if c else b()

ConI.feasibility_ms = lambda self, ms: None

ConI.rfind = lambda self, s, c: s.rfind(c)

ConI.splitline = lambda self, s, k: s.splitlines()[k]

def _fact(self, c):
    if not c: raise Mismatch('a fact of the contract is false')
ConI.fact = _fact
ConI.parent = lambda self, s, sep: s.rsplit(sep, 1)[0]
ConI.suffix = lambda self, s, k: s[k:]
ConI.char = lambda self, s, k: s[k:k + 1]
ConI.count = lambda self, s, x: s.count(x)
ConI.prefix = lambda self, s, k: s[:k]

ConI.map = lambda self, d=(): dict(d)
ConI.map_set = lambda self, m, k, v: {**m, k: v}
ConI.map_any = lambda self, name: {}
ConI.map_has = lambda self, m, k: k in m
ConI.map_get = lambda self, m, k: m.get(k)
ConI.map_copy = lambda self, m: dict(m)
ConI.map_eq = lambda self, a, b: a == b
def _list_of(self, cls, maker, n):
    x = cls()
    for i in range(n): list.append(x, maker(i))
    return x
ConI.list_of = _list_of
ConI.int_of = lambda self, v: v
ConI.is_int = lambda self, v: isinstance(v, int)

ConI.chars = lambda self, s, fn: ''.join(fn(c) for c in s)
ConI.reversed = lambda self, s: s[::-1]
ConI.join = lambda self, sep, l: sep.join(l)
ConI.joined_hint = lambda self, sep, fn: None
ConI.repeat = lambda self, c, n: c * n

ConI.rstrip = lambda self, s, chars=None: s.rstrip(chars)
ConI.lstrip = lambda self, s, chars=None: s.lstrip(chars)
def _first_failure(self, name, n, ok):
    return next((k for k in range(n) if not ok(k + 1)), n)
ConI.first_failure = _first_failure

ConI.letter = lambda self, name, alphabet=None: self.note(name, self.r.choice(alphabet or ALPHABET))

ConI.relevant_facts = lambda self: None

ConI.past_end = lambda self, t: None
def _con_line(self, t, i):
    ls = t.split('\n')
    return ls[i] if i < len(ls) else ''
ConI.line = _con_line
