"""
The API object I given to proof harnesses, symbolic implementation. api_con.py has the concrete one (same interface, PyPy or
CPython, random inputs): a harness is one text that states a contract; here it is proved, there it is replayed on the real code.
"""
import z3, types, importlib
from . import core, engine, interp as interp_mod
from .core import *
from .interp import Interp, Stub, SymExc, SymIter, interleave as interleave_seq, IFunc, BoundI
from .engine import Engine
from .api_con import private_helper

class Outcome:
    def __init__(self, value=None, exc=None): self.value, self.exc = value, exc
    @property
    def raised(self): return self.exc is not None
    def is_exc(self, cls):
        "raised an exception of class cls (certainly)"
        if self.exc is None: return False
        if isinstance(self.exc, HExc): return issubclass(self.exc.base, cls)
        return isinstance(self.exc, cls)
    def __repr__(self): return 'Outcome(%r, %r)' % (self.value, self.exc)

class HExc(SymExc):
    "An exception raised by a stub: some class derived from `base`, otherwise unknown."
    def __init__(self, label, index, base):
        SymExc.__init__(self, label, index); self.base = base
    def match(self, e, cls):
        if isinstance(cls, tuple):
            r = False
            for c in cls:
                m = self.match(e, c)
                if m is True: return True
                if m is not False: r = m if r is False else SBool(z3.Or(r.t, m.t))
            return r
        if issubclass(self.base, cls): return True
        if issubclass(cls, self.base):
            f = z3.Function('exc_is_%s_%s' % (self.label, cls.__name__), INT, BOOL)
            return SBool(f(zint(self.index) if self.index is not None else z3.IntVal(0)))
        return False
    def __str__(self): return 'error of %s[%s]' % (self.label, self.index)

class SymI:
    concrete = False

    def __init__(self, eng):
        self.e = eng
        self.interp = Interp(eng)
        self.makers = {}
        eng.contracts = self.interp.contracts

    # --- inputs
    def _in(self, sort, name):
        t = self.e.fresh(sort, name)
        self.e.inputs[name] = t
        return t
    def int(self, name, lo=None, hi=None):
        t = self._in('int', name)
        if lo is not None: self.e.assume(t >= lo)
        if hi is not None: self.e.assume(t <= hi)
        return SInt(t)
    def bool(self, name): return SBool(self._in('bool', name))
    def str(self, name, alphabet=None): return SStr(self._in('str', name))
    def val(self, name): return SVal(self._in('val', name))
    def choice(self, name, options):
        k = self.e.choose(len(options))
        self.e.inputs[name] = z3.StringVal(str(k))
        return options[k]
    def fork(self, name): return self.choice(name, [False, True])

    def f(self, name, sort, *args):
        "An uninterpreted function of its arguments."
        ts = [zint(a) if kind_int(a) else to_V(a) for a in args]
        fn = z3.Function('f_' + name, *([INT if kind_int(a) else V for a in args] + [SORTS[sort]]))
        return wrap(sort, fn(*ts)) if args else wrap(sort, z3.Const('f_' + name, SORTS[sort]))

    # --- objects
    def new(self, cls, _name=None, **attrs):
        "An instance of class cls made without its constructor, with given attributes (functions: stubs)."
        obj = cls.__new__(cls)
        for k, v in attrs.items():
            if isinstance(v, Stub) and private_helper(cls, k): v = Stub(self.helper(cls.__name__ + '.' + k, v), k)
            obj.__dict__[k] = v
        obj.__dict__['_harness'] = True
        self.e.register(obj, 'new:%s' % (_name or cls.__name__))
        return obj
    def helper(self, name, v):
        self.e.helpers.setdefault(name, False)
        def call(*a, **k):
            self.e.helpers[name] = True
            return v(*a, **k)
        return call
    def track(self, obj):
        self.e.register(obj, 'track:%s' % type(obj).__name__); return obj
    def elem(self, seqname, i, obj):
        "Mark obj as element i of the sequence seqname."
        fn = z3.Function('elem_' + seqname, INT, V)
        t = fn(zint(i))
        obj.__dict__['_vterm'] = t
        obj.__dict__['_harness'] = True
        self.e.assume(z3.Not(V.is_o(t)))        # an object that was there before: none of those made since
        return obj
    def seq(self, name, maker, n=None, tuple_=False):
        "A list of unknown length of objects maker(i); i is an int or symbolic int. maker must be pure."
        n = self._len(name, n)
        cache = {}
        def mk(i):
            i = z3.simplify(i)
            k = i.get_id()
            if k not in cache:
                x = maker(SInt(i) if not z3.is_int_value(i) else i.as_long())
                cache[k] = (i, x)
            return cache[k][1]
        self.e.elemfns['elem_' + name] = mk
        s = SSeq(n, mk)
        if tuple_: return VTuple(s)
        return self.e.symlist(s)
    def _len(self, name, n):
        if n is None:
            t = self._in('int', 'len_' + name)
            self.e.assume(t >= 0)
            return t
        return zint(n)
    def vals(self, name, n=None, sort='val', tuple_=False):
        "A list of unknown length of arbitrary values."
        n = self._len(name, n)
        fn = z3.Function('vals_' + name, INT, SORTS[sort])
        s = SSeq(n, lambda i: wrap(sort, fn(i)))
        return VTuple(s) if tuple_ else self.e.symlist(s)
    def interleave(self, a, b, n):
        sa, sb = a.sym, b.sym
        return self.e.symlist(interleave_seq(self.e, sa.at, sb.at, zint(n)))
    def list(self, items): return self.e.vlist(list(items))
    def dict(self, d=()):
        x = VDict(d); self.e.register(x); return x
    def generator(self, n, elem):
        "a generator of n items; elem(k) is evaluated at consumption"
        return SymIter(zint(n), lambda k: elem(SInt(k) if not z3.is_int_value(k) else k.as_long()))

    # --- stubs
    def stub(self, fn, name='stub'):
        return Stub(fn, name)
    def fn(self, name, ret='val', raises=True, base=Exception, index=None, ev=True, args=True):
        """A callable stub: logs the event (name, [index], args); raises (an arbitrary exception derived from `base`) or returns an
        arbitrary value of sort `ret` (a function of its index, or of the arguments when there is none)."""
        def call(*a, **k):
            key = [index] if index is not None else []
            if ev: self.event(name, *(key + list(a) + [x for kk in sorted(k) for x in (kk, k[kk])]))
            fkey = key if index is not None else []
            if raises and self.f(name + '_raises', 'bool', *fkey): self.raise_(name, index, base)
            if ret is None: return None
            if callable(ret): return ret(*a, **k)
            return self.f(name + '_ret', ret, *fkey)
        return Stub(call, name)
    def raise_(self, label, index=None, base=Exception):
        raise PyExc(HExc(label, index, base))
    def exc(self, e): raise PyExc(e)
    def event(self, name, *args): self.e.event(name, *args)
    # --- traces
    nil = property(lambda self: SVal(V.nil))
    def ev(self, name, *args): return SVal(V.cons(V.s(z3.StringVal(name)), vtuple([to_V(a) for a in args])))
    def push(self, acc, *evs):
        t = to_V(acc)
        for e in evs: t = V.cons(to_V(e), t)
        return SVal(z3.simplify(t))
    def trace(self): return SVal(self.e.trace_)
    def clear_trace(self): self.e.trace_ = V.nil; self.e.nev = z3.IntVal(0)
    def nevents(self): return SInt(self.e.nev) if not z3.is_int_value(self.e.nev) else self.e.nev.as_long()
    def rec(self, name, sort, init, step): 
        r = self.e.rec(name, sort, step, init)
        return RecH(r, init)
    def hints(self, h): self.e.hints.append(h)
    def list_hint(self, name, elem, length=None):
        "suggest that lists built by loops are [elem(0), ..., elem(length(k)-1)] after k iterations"
        el = lambda i: elem(SInt(i) if not z3.is_int_value(i) else i.as_long())
        self.e.list_hints.append((name, el, (lambda k: k) if length is None else (lambda k: zint(length(SInt(k))))))
    def index_hint(self, name, fn, sort='val'):
        "suggest that variables updated by loops hold fn(k) or fn(k-1) after k iterations"
        self.e.index_hints.append((name, sort, fn))

    # --- running the code
    def call(self, fn, *args, **kwargs):
        if not self.interp.stack: self.e.harness_calls += 1
        self.e.freeze()
        try: return Outcome(self.interp.call(fn, list(args), kwargs))
        except PyExc as ex: return Outcome(exc=ex.exc)
    def run(self, fn, *args, **kwargs):
        "call that must not raise (raises within the harness: the path is reported as a failed obligation)"
        o = self.call(fn, *args, **kwargs)
        self.check('no_exception', not o.raised, note='raised %r' % (o.exc,))
        if o.raised: raise PathEnd()
        return o.value
    def force(self, v):
        "list of the values of a generator/iterable"
        return self.interp.to_list(v)
    def outcome(self, thunk):
        try: return Outcome(thunk())
        except PyExc as ex: return Outcome(exc=ex.exc)
    def getattr(self, obj, name): return self.interp.getattr(obj, name)
    def contract(self, fn, handler, helper=False):
        if helper: handler = self.helper(fn.__qualname__, handler)
        self.interp.contracts[fn] = handler
    def cls_contract(self, cls, handler): self.interp.cls_contracts[cls] = handler
    def patch(self, module, name, value):
        "replace a module-level name for the duration of the path"
        old = getattr(module, name)
        self.e.undo.append((module, name, old)); setattr(module, name, value)

    # --- statements
    def assume(self, c):
        self.e.assume(zbool(c))
        if not self.e.feasible(z3.BoolVal(True)): raise PathEnd()
    def check(self, name, c, note=''): self.e.check(name, c, note)
    def fail(self, name, note=''): self.e.check(name, False, note)
    def eq(self, a, b):
        if a is b: return True
        if is_sym(a) or is_sym(b) or has_sym(a) or has_sym(b):
            ka, kb = engine.kind(a), engine.kind(b)
            if ka == kb and ka in ('int', 'str', 'bool', 'list', 'dict'): return SBool(unwrap(SORTS[ka], a) == unwrap(SORTS[ka], b))
            return SBool(to_V(a) == to_V(b))
        if isinstance(a, dict) and isinstance(b, dict): return SBool(z3.simplify(self.e.zdict(a) == self.e.zdict(b)))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b): return False
            return self.and_(*[self.eq(x, y) for x, y in zip(a, b)])
        try: return type(a) is type(b) and a == b
        except Exception: return False
    def same(self, a, b):
        "the very same value/object"
        if isinstance(a, VTuple) or isinstance(b, VTuple) or isinstance(a, list) and a is not b or isinstance(b, list): return self.eq(a, b)
        return SBool(z3.simplify(to_V(a) == to_V(b)))
    def items_eq(self, a, b):
        "equal sequences (list or tuple), element by element"
        return SBool(z3.simplify(self.e.zseq(a) == self.e.zseq(b)))
    def check_seq(self, name, s, n, elem):
        "s has length n and s[i] is elem(i) for every 0 <= i < n"
        sn = zint(self.interp.length(s))
        nn = zint(n)
        self.check(name + '.length', SBool(sn == nn))
        if z3.is_int_value(z3.simplify(nn)):
            for i in range(z3.simplify(nn).as_long()):
                self.check(name + '.items', self.same(self.interp.getitem(s, i), elem(i)))
            return
        i = self.e.fresh(INT, 'i')
        if not self.e.branch(nn > 0): return
        self.e.assume(z3.And(i >= 0, i < nn))
        x = s.sym.at(i) if getattr(s, 'sym', None) is not None else self.interp.getitem(s, SInt(i))
        self.check(name + '.items', self.same(x, self.e.pure_eval(lambda: elem(SInt(i)))))
    def truth(self, v): return SBool(z3.simplify(zbool(v))) if isinstance(v, Sym) else self.interp.truth(v)
    def strof(self, v): return self.e.py_str(v)
    def and_(self, *cs): return SBool(z3.simplify(z3.And(*[zbool(c) for c in cs]))) if cs else True
    def or_(self, *cs): return SBool(z3.simplify(z3.Or(*[zbool(c) for c in cs]))) if cs else False
    def not_(self, c): return SBool(z3.simplify(z3.Not(zbool(c))))
    def implies(self, a, b): return SBool(z3.Implies(zbool(a), zbool(b)))
    def iff(self, a, b): return SBool(zbool(a) == zbool(b))
    def ite(self, c, a, b): return self.e.ite(zbool(c), a, b)
    def is_none(self, v): return SBool(to_V(v) == V.none) if isinstance(v, Sym) else v is None
    def op(self, opname, *args):
        """Result of a Python operator on arbitrary values, as a function (no events, may raise in the same cases as the code under
        verification)."""
        return self.interp.binop(opname, *args) if callable(opname) else self.e.val_op(opname, *args)
    def length(self, x): return self.interp.length(x)
    def replace(self, s, table): return SStr(hom_apply(table, zstr(s))) if is_sym(s) else ''.join(table.get(c, c) for c in s)
    def isinst(self, x, cls): return interp_mod.inst(self.interp, x, cls)

def kind_int(a): return isinstance(a, (int, SInt)) and not isinstance(a, bool)

class RecH:
    def __init__(self, r, init): self.r, self.init = r, init
    def at(self, k): return wrap(self.r.sort, self.r.at(unwrap(self.r.sort, self.init), zint(k)))
    __call__ = at

def _seqcat(self, *parts):
    "concatenation of lists, some of symbolic length"
    if len(parts) == 1: 
        p = parts[0]
        return p
    def get(p): return p.sym if getattr(p, 'sym', None) is not None else interp_mod.conc_seq(list(list.__iter__(p)) if isinstance(p, list) else list(p))
    parts = [p for p in parts if getattr(p, 'sym', None) is not None or len(p)]
    return self.e.symlist(interp_mod.cat_seqs([get(p) for p in parts]))
SymI.seqcat = _seqcat
def _zipseq(self, a, b, n):
    "a[0], b[0], a[1], b[1], ..., a[n-1], b[n-1]"
    sa, sb, n = a.sym, b.sym, zint(n)
    def elem(i):
        i = z3.simplify(i)
        if z3.is_int_value(i): return (sb if i.as_long() % 2 else sa).at(z3.IntVal(i.as_long() // 2))
        L = self.e.local_decisions
        conds = L['conds'] if L else []
        for c, s in ((0, sa), (1, sb)):
            if self.e._check(*(conds + [i % 2 != c])) == z3.unsat: return s.at(z3.simplify((i - c) / 2))
        if self.e.branch(i % 2 == 0): return sa.at(z3.simplify(i / 2))
        return sb.at(z3.simplify((i - 1) / 2))
    return self.e.symlist(SSeq(z3.simplify(2 * n), elem))
SymI.zipseq = _zipseq
def _dict_of(self, name, key, val, n):
    "a dict with the items key(i): val(i) for i < n, in this order; the keys are different"
    from vc.core import D, d_empty
    t = z3.Const(name, D)
    ent = lambda i: (lambda j: (key(j), val(j)))(SInt(i) if not z3.is_int_value(i) else i.as_long())
    self.e.dict_entries[t.get_id()] = (t, SSeq(zint(n), ent))
    self.e.assume((t == d_empty) == (zint(n) <= 0))
    d = VDict(); d.term = t
    return self.interp.new(d)
SymI.dict_of = _dict_of
SymI.dict_set = lambda self, d, k, v: _wrapd(d_set(self.e.zdict(d), to_V(k), to_V(v)))
def _wrapd(t):
    d = VDict(); d.term = t; return d
SymI.list_add = lambda self, l, *xs: self.e.concat_list(l, list(xs))
def _starlist(self, args):
    "positional arguments received by a stub as a list"
    out = []
    for a in args:
        if isinstance(a, interp_mod.StarSym): return self.e.symlist(interp_mod.prepend(out, a.seq) if out else a.seq)
        out.append(a)
    return self.e.vlist(out)
SymI.starlist = _starlist
SymI.seqrec = lambda self, name, elem: self.rec(name, 'list', self.list([]), lambda k, l: self.e.concat_list(l, [elem(k)]))
SymI.set_of = lambda self, s, n, elem: SBool(to_V(s) == to_V(interp_mod.SSet(self.e.zseq(self.e.symlist(SSeq(zint(n), lambda i: elem(SInt(i) if not z3.is_int_value(i) else i.as_long()))))))) if isinstance(s, Sym) else self.items_eq(sorted(s), [])
def _op2(self, op, a, b):
    import operator
    if op in interp_mod.BINOP.values(): return self.interp.binop(op, a, b)
    return self.interp.compare(op, a, b)
SymI.op2 = _op2
SymI.contains = lambda self, c, x: self.interp.contains(c, x)
SymI.dget_str = lambda self, d, k: SStr(z3.If(V.is_s(interp_mod.dget(self.e.zdict(d), to_V(k))), V.sv(interp_mod.dget(self.e.zdict(d), to_V(k))), z3.StringVal('')))
def _str_dicts(self):
    "suggest: dicts built by loops have only strings as values"
    def h(view0, mods):
        out = []
        for loc, s in mods.items():
            if s != 'dict': continue
            def f(k, cur, loc=loc):
                x = z3.Const('x?', V)
                d = unwrap(SORTS['dict'], cur[loc])
                return z3.ForAll([x], z3.Implies(interp_mod.dhas(d, x), V.is_s(interp_mod.dget(d, x))))
            out.append(('strings in %s' % (loc,), f))
        return out
    self.e.hints.append(h)
SymI.str_dicts = _str_dicts
SymI.setattr = lambda self, o, n, v: self.interp.setattr(o, n, v)
SymI.setitem = lambda self, o, k, v: self.interp.setitem(o, k, v)

def _lines(self, name):
    "an arbitrary text: any number >= 1 of lines"
    n = self._in('int', 'nlines_' + name)
    self.e.assume(n >= 1)
    f = z3.Function('line_' + name, INT, STR)
    def at(i):
        t = f(i)
        self.e.axiom(z3.Not(z3.Contains(t, z3.StringVal('\n'))))
        return SStr(t)
    return SLines(SSeq(n, at))
SymI.lines = _lines
SymI.nlines = lambda self, t: SInt(t.ls.n)
SymI.line = lambda self, t, i: t.ls.at(zint(i))
def _check_lines(self, name, out, n, fn):
    "out has n lines, line i is fn(i)"
    if isinstance(out, (str, SStr)) and not isinstance(out, SLines): raise OutOfSubset('the result is not known as lines')
    self.check(name + '.number', SBool(out.ls.n == zint(n)))
    i = self.e.fresh(INT, 'i')
    self.e.assume(z3.And(i >= 0, i < zint(n)))
    a = self.e.pure_eval(lambda: out.ls.at(i)); b = self.e.pure_eval(lambda: fn(SInt(i)))
    self.check(name + '.each', SBool(zstr(a) == zstr(b)))
SymI.check_lines = _check_lines
SymI.drop_prefix = lambda self, l, p: SStr(z3.If(z3.PrefixOf(zstr(p), zstr(l)), z3.SubString(zstr(l), z3.Length(zstr(p)), z3.Length(zstr(l)) - z3.Length(zstr(p))), zstr(l)))
SymI.startswith = lambda self, s, p: SBool(z3.PrefixOf(zstr(p), zstr(s)))

SymI.item = lambda self, l, i: self.interp.getitem(l, i)

def _le_hint(self, bound):
    "suggest: integers changed by loops stay <= bound"
    def h(view0, mods):
        return [('%s <= hint' % (loc,), lambda k, cur, loc=loc: zint(cur[loc]) <= zint(bound)) for loc, s in mods.items() if s == 'int']
    self.e.hints.append(h)
SymI.le_hint = _le_hint

def _count_hint(self, bound):
    "suggest: loops make at most `bound` complete iterations"
    self.e.hints.append(lambda view0, mods: [('iterations <= hint', lambda k, cur: zint(k) <= zint(bound))])
SymI.count_hint = _count_hint

def _mentions(self, s, n):
    "the text contains the decimal form of the int n >= 0 (sufficient condition: one of its parts is that)"
    if not is_sym(s) and not is_sym(n): return str(n) in s
    z, n = zstr(s), zint(n)
    ors, todo = [z3.BoolVal(False)], [(z, z3.BoolVal(True))]
    while todo:
        t, g = todo.pop()
        k = t.decl().kind()
        if t.decl().name() == 'str.from_int': ors.append(z3.And(g, t.arg(0) == n, n >= 0))
        elif k == z3.Z3_OP_ITE: todo += [(t.arg(1), z3.And(g, t.arg(0))), (t.arg(2), z3.And(g, z3.Not(t.arg(0))))]
        elif z3.is_string_value(t):
            import re
            ors += [z3.And(g, n == int(d)) for d in re.findall('[0-9]+', pystr(t))]
        elif k == z3.Z3_OP_SEQ_CONCAT: todo += [(c, g) for c in t.children()]
    return SBool(z3.Or(*ors))
SymI.mentions = _mentions

def _items(self, name, maker, n):
    "a list of n items maker(i), which may be of different kinds (no caching; branches of the maker are branches of the path)"
    return self.e.symlist(SSeq(zint(n), lambda i: maker(SInt(i) if not z3.is_int_value(i) else i.as_long())))
SymI.items = _items
def _ite_list(self, c, a, b):
    t = z3.If(zbool(c), self.e.zseq(a), self.e.zseq(b()))
    l = VList(); l.sym = ZSeq(z3.simplify(t)); return l
SymI.ite_list = _ite_list
def _inner(self, fn, handler): self.interp.inner[fn] = handler
SymI.inner = _inner

def _nth(self, it, j):
    "item j of an iterator, which is known to have one"
    it = self.interp.iterate(it)
    if isinstance(it, SymIter): return it.elem(zint(j))
    raise OutOfSubset('nth')
SymI.nth = _nth
def _iter_len(self, it):
    "number of items of an iterator; None if it is infinite"
    it = self.interp.iterate(it)
    if isinstance(it, SymIter): return None if getattr(it, 'inf', False) else SInt(z3.simplify(it.n))
    return len(list(it))
SymI.iter_len = _iter_len
SymI.splitlines = lambda self, s: self.interp.splitlines(s)

def _strmethod(self, s, name): return interp_mod.StrMethod(self.interp, s, name)()
SymI.strmethod = _strmethod
SymI.resub = lambda self, pat, repl, s: self.interp.regex(interp_mod.re_mod.compile(pat), 'sub', [repl, s], {})
def _ite_dict(self, c, a, b):
    d = VDict(); d.term = z3.simplify(z3.If(zbool(c), self.e.zdict(a), self.e.zdict(b()))); return d
SymI.ite_dict = _ite_dict

def _feas(self, ms): self.e.feas_ms = ms; self.e.solver.set('timeout', ms)
SymI.feasibility_ms = _feas

SymI.rfind = lambda self, s, c: interp_mod.StrMethod(self.interp, s, 'rfind')(c)

SymI.splitline = lambda self, s, k: self.interp.splitlines(s).sym.at(zint(k))

def _fact(self, c):
    "a true statement about the ghost functions of the contract (a lemma that is not checked)"
    self.e.axiom(zbool(c))
SymI.fact = _fact
def _parent(self, s, sep):
    "s without the last sep and what follows it, for strings that contain sep"
    s = SStr(zstr(s))
    p = s.rfind_(sep)
    return SStr(z3.SubString(s.t, 0, p))
SymI.parent = _parent
def _suffix(self, s, k):
    "s[k:] for k >= 0"
    s = SStr(zstr(s)); k = zint(k)
    return SStr(core.substr(s.t, z3.simplify(k), z3.simplify(z3.Length(s.t) - k)))
SymI.suffix = _suffix
def _char(self, s, k):
    "s[k:k + 1] for k >= 0"
    return SStr(z3.SubString(zstr(s), zint(k), 1))
SymI.char = _char
SymI.count = lambda self, s, x: SStr(zstr(s)).count(x)
SymI.prefix = lambda self, s, k: SStr(core.substr(zstr(s), z3.IntVal(0), z3.simplify(zint(k))))

# dicts whose order is of no importance
def _map(self, d=()):
    m = VMap(); m.term = map_empty
    for k, v in dict(d).items(): m.term = z3.Store(m.term, to_V(k), to_V(v))
    self.e.register(m); return m
SymI.map = _map
def _map_set(self, m, k, v):
    r = VMap(); r.term = z3.Store(m.term, to_V(k), to_V(v)); return r
SymI.map_set = _map_set
SymI.map_get = lambda self, m, k: SVal(z3.simplify(z3.If(z3.Select(m.term, to_V(k)) == ABSENT, V.none, z3.Select(m.term, to_V(k)))))
SymI.map_has = lambda self, m, k: SBool(z3.simplify(z3.Select(m.term, to_V(k)) != ABSENT))
def _map_any(self, name):
    r = VMap(); r.term = z3.Const(name, map_empty.sort()); return r
SymI.map_any = _map_any
def _map_copy(self, m):
    r = VMap(); r.term = m.term; self.e.register(r); return r
SymI.map_copy = _map_copy
SymI.map_eq = lambda self, a, b: SBool(z3.simplify(a.term == b.term))
def _list_of(self, cls, maker, n):
    "an instance of a subclass of list, of length n"
    l = self.seq('list_of_' + cls.__name__, maker, n)
    x = cls()
    x.sym = l.sym
    self.e.register(x, 'new:' + cls.__name__)
    return x
SymI.list_of = _list_of
SymI.int_of = lambda self, v: v if not isinstance(v, SVal) else SInt(V.iv(v.t))
SymI.is_int = lambda self, v: SBool(V.is_i(v.t)) if isinstance(v, SVal) else isinstance(v, int)

def _cmp_hint(self, *bounds):
    "suggest: integers changed by loops stay below, or at or above, each bound"
    def h(view0, mods):
        r = []
        for loc, s in mods.items():
            if s != 'int': continue
            for j, b in enumerate(bounds):
                r += [('%s < hint %d' % (loc, j), lambda k, cur, loc=loc, b=b: zint(cur[loc]) < zint(b)), ('%s >= hint %d' % (loc, j), lambda k, cur, loc=loc, b=b: zint(cur[loc]) >= zint(b)),
                      ('%s <= hint %d' % (loc, j), lambda k, cur, loc=loc, b=b: zint(cur[loc]) <= zint(b))]
        return r
    self.e.hints.append(h)
SymI.cmp_hint = _cmp_hint

def _chars(self, s, fn):
    "''.join(fn(c) for c in s)"
    t = zstr(s)
    return interp_mod.charmap_apply(self.e, z3.simplify(zstr(self.e.pure_eval(lambda: fn(SStr(z3.Const('ch?', STR)))))), t)
SymI.chars = _chars
SymI.reversed = lambda self, s: SStr(interp_mod.str_rev(zstr(s)))
SymI.join = lambda self, sep, l: SStr(interp_mod.joinz(sep, self.e.zseq(l)))
def _joined_hint(self, sep, fn):
    "suggest: lists built by loops are non-empty lists of strings; joined, they are fn(k) after k iterations"
    def h(view0, mods):
        z = lambda cur, loc: self.e.zseq(cur[loc])
        r = []
        for loc, s in mods.items():
            if s != 'list': continue
            r += [('%s strings' % (loc,), lambda k, cur, loc=loc: interp_mod.allstr(z(cur, loc))),
                  ('%s non-empty' % (loc,), lambda k, cur, loc=loc: z3.Length(z(cur, loc)) >= 1),
                  ('%s joined' % (loc,), lambda k, cur, loc=loc: interp_mod.joinz(sep, z(cur, loc)) == zstr(fn(k)))]
        return r
    self.e.hints.append(h)
SymI.joined_hint = _joined_hint
def _strings_hint(self):
    "suggest: lists built by loops are lists of strings"
    self.e.hints.append(lambda view0, mods: [('%s strings' % (loc,), lambda k, cur, loc=loc: interp_mod.allstr(self.e.zseq(cur[loc]))) for loc, s in mods.items() if s == 'list'])
SymI.strings_hint = _strings_hint

SymI.repeat = lambda self, c, n: SStr(self.e.repeat(c, zint(n)))
SymI.rstrip = lambda self, s, chars=None: interp_mod.StrMethod(self.interp, s, 'rstrip')(*([chars] if chars else []))
SymI.lstrip = lambda self, s, chars=None: interp_mod.StrMethod(self.interp, s, 'lstrip')(*([chars] if chars else []))

def _first_failure(self, name, n, ok):
    """the first k < n with not ok(k + 1), or n; ok is a conjunctive recurrence (once False it stays so), hence ok(j) = (j <= k) for j <= n"""
    n = zint(n)
    k = zint(self.int(name, lo=0))
    self.e.assume(k <= n)
    r, init = ok.r, unwrap(BOOL, ok.init)
    at0 = r.at
    def at(i0, j):
        t = at0(i0, j)
        f = r.fun(i0)[0]
        j = j if z3.is_expr(j) else z3.IntVal(j)
        for x in (z3.simplify(j - 1), z3.simplify(j), z3.simplify(j + 1)):
            self.e.axiom(z3.Implies(z3.And(x >= 0, x <= n), f(x) == (x <= k)))
        return t
    r.at = at
    return SInt(k)
SymI.first_failure = _first_failure

def _letter(self, name, alphabet=None):
    "a string of one character"
    s = self.str(name, alphabet)
    self.e.assume(z3.Length(s.t) == 1)
    return s
SymI.letter = _letter

def _relevant_first(self): self.e.relevant_first = True
SymI.relevant_facts = _relevant_first

def _past_end(self, t):
    "lines after the last one, which are not in the text, stand for empty lines in the specification"
    ls, at0 = t.ls, t.ls.at
    def at(j):
        x = at0(j)
        self.e.axiom(z3.Implies(j >= ls.n, zstr(x) == z3.StringVal('')))
        return x
    ls.at = at
SymI.past_end = _past_end
