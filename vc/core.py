"""
pyvc core: symbolic values, path exploration, obligations, recurrences, inductive loop cutting.

One `Engine` explores all paths of one proof harness by deterministic re-execution (depth first). Python code of the
functions under verification is executed by vc.interp (an AST interpreter); values are either ordinary Python objects or
instances of Sym (z3 terms). Any operation on a Sym that is not modelled raises OutOfSubset: nothing is silently concretised.
"""
import z3, time, itertools

z3.set_param('smt.random_seed', 7)

# ----------------------------------------------------------------------------------------------------------- exceptions

class Control(BaseException): pass
class PathEnd(Control):
    "This path ends here (infeasible, or cut at the end of an arbitrary loop iteration)."
class Restart(Control):
    "The set of havocked locations or of candidate invariants of some loop has changed; exploration starts again."
class OutOfSubset(Control):
    "The code uses something the verifier has no model for."
class EngineError(Control): pass
class PyExc(Control):
    "An exception raised by the interpreted program."
    def __init__(self, exc): self.exc = exc

# ----------------------------------------------------------------------------------------------------------- sorts

_V = z3.Datatype('V')
_V.declare('none')
_V.declare('b', ('bv', z3.BoolSort()))
_V.declare('i', ('iv', z3.IntSort()))
_V.declare('s', ('sv', z3.StringSort()))
_V.declare('o', ('ov', z3.IntSort()))
_V.declare('nil')
_V.declare('cons', ('hd', _V), ('tl', _V))
V = _V.create()
SEQ = z3.SeqSort(V)
INT, BOOL, STR = z3.IntSort(), z3.BoolSort(), z3.StringSort()
SORTS = {'int': INT, 'bool': BOOL, 'str': STR, 'val': V, 'list': SEQ}

f_truth_o = z3.Function('truth_o', V, BOOL)     # truth value of an opaque object
f_str     = z3.Function('str_of', V, STR)       # str(x) of a non-string
f_repr    = z3.Function('repr_of', V, STR)
f_veq     = z3.Function('veq', V, V, BOOL)      # == between values not both of one primitive type

ENGINE = None
def E():
    if ENGINE is None: raise EngineError('no engine')
    return ENGINE

def truth_term(v):
    return z3.If(v == V.none, False, z3.If(V.is_b(v), V.bv(v), z3.If(V.is_i(v), V.iv(v) != 0,
           z3.If(V.is_s(v), V.sv(v) != z3.StringVal(''), z3.If(v == V.nil, False, f_truth_o(v))))))

def str_term(v):
    return z3.If(V.is_s(v), V.sv(v), f_str(v))

def pyeq_term(a, b):
    return z3.If(a == b, True, z3.If(z3.And(V.is_s(a), V.is_s(b)), False, z3.If(z3.And(V.is_i(a), V.is_i(b)), False,
           z3.If(z3.Or(a == V.none, b == V.none), z3.And(z3.Or(V.is_o(a), V.is_o(b)), f_veq(a, b)),
           z3.If(z3.And(V.is_b(a), V.is_b(b)), False, f_veq(a, b))))))

# ----------------------------------------------------------------------------------------------------------- homomorphic strings
# x.replace(c, s) for a single character c is the monoid homomorphism that maps c to s and any other character to itself.
# A composition of such replacements is again of that form; it is kept as a table and as one uninterpreted function per table.

_homs = {}          # frozen table -> z3 function
_hom_of = {}        # decl name -> table

def hom_table(tab):
    return tuple(sorted((c, s) for c, s in tab.items() if c != s))

def hom_fun(tab):
    key = hom_table(tab)
    if key not in _homs:
        f = z3.Function('hom_%d' % len(_homs), STR, STR)
        _homs[key] = f; _hom_of[f.name()] = dict(key)
    return _homs[key]

def hom_apply(tab, t):
    "The z3 string term of hom_tab(t), pushed through concatenation, constants and nested homs."
    if not hom_table(tab): return t
    if z3.is_string_value(t):
        return z3.StringVal(''.join(tab.get(c, c) for c in pystr(t)))
    k = t.decl().kind()
    if k == z3.Z3_OP_SEQ_CONCAT:
        parts = [hom_apply(tab, c) for c in t.children()]
        return z3.Concat(*parts) if len(parts) > 1 else parts[0]
    if k == z3.Z3_OP_ITE:
        c, a, b = t.children()
        return z3.If(c, hom_apply(tab, a), hom_apply(tab, b))
    if t.decl().name() in _hom_of and k == z3.Z3_OP_UNINTERPRETED:
        inner = _hom_of[t.decl().name()]
        comp = {c: ''.join(tab.get(x, x) for x in s) for c, s in inner.items()}
        for c, s in tab.items():
            if c not in inner: comp[c] = s
        return hom_apply(comp, t.children()[0]) if hom_table(comp) else t.children()[0]
    r = hom_fun(tab)(t)
    if all(s for c, s in hom_table(tab)):
        E().axiom((r == z3.StringVal('')) == (t == z3.StringVal('')))
    # facts about the characters eliminated and about identity
    dom = [c for c, s in hom_table(tab)]
    E().axiom(z3.Implies(z3.And(*[z3.Not(z3.Contains(t, z3.StringVal(c))) for c in dom]), r == t))
    for c in dom:
        if not any(c in s for d, s in hom_table(tab)):
            E().axiom(z3.Not(z3.Contains(r, z3.StringVal(c))))
    return r

def pystr(t):
    s = t.as_string()
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)

# ----------------------------------------------------------------------------------------------------------- symbolic values

class Sym:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __hash__(self): raise OutOfSubset('hash of a symbolic value')
    def __repr__(self): return '<%s %s>' % (type(self).__name__, self.t)
    def __iter__(self): raise OutOfSubset('iteration over a symbolic %s' % type(self).__name__)
    def __len__(self): raise OutOfSubset('native len() of a symbolic value')
    def __str__(self): raise OutOfSubset('native str() of a symbolic value')
    def __format__(self, spec): raise OutOfSubset('native format() of a symbolic value')
    def __bool__(self): raise OutOfSubset('native bool()')
    def __index__(self): raise OutOfSubset('native index of a symbolic int')
    def __int__(self): raise OutOfSubset('native int()')

def zbool(x):
    "Python/symbolic truth as a z3 Bool term."
    if isinstance(x, SBool): return x.t
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, SInt): return x.t != 0
    if isinstance(x, SStr): return x.t != z3.StringVal('')
    if isinstance(x, SVal): return truth_term(x.t)
    raise OutOfSubset('zbool of %r' % type(x))

class SBool(Sym):
    __slots__ = ()
    __hash__ = Sym.__hash__
    def __bool__(self): return E().branch(self.t)
    def __and__(self, o): return SBool(z3.And(self.t, zbool(o)))
    def __or__(self, o): return SBool(z3.Or(self.t, zbool(o)))
    __rand__ = __and__; __ror__ = __or__
    def __invert__(self): return SBool(z3.Not(self.t))
    def __eq__(self, o):
        if isinstance(o, (bool, SBool)): return SBool(self.t == zbool(o))
        if isinstance(o, SVal): return o == self
        if isinstance(o, (int, SInt)): return self.asint() == o
        return False
    def __ne__(self, o): return neg(self == o)
    def asint(self): return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))
    def __mul__(self, o):
        if isinstance(o, (str, SStr)): return SStr(z3.If(self.t, zstr(o), z3.StringVal('')))
        return self.asint() * o
    __rmul__ = __mul__
    def __add__(self, o): return self.asint() + o
    __radd__ = __add__
    def __sub__(self, o): return self.asint() - o
    def __rsub__(self, o): return o - self.asint()

def neg(x):
    return (not x) if isinstance(x, bool) else ~x if isinstance(x, SBool) else SBool(z3.Not(zbool(x)))

def zint(x):
    if isinstance(x, SInt): return x.t
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, SBool): return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if z3.is_expr(x): return x
    return None

class SInt(Sym):
    __slots__ = ()
    __hash__ = Sym.__hash__
    def __bool__(self): return E().branch(self.t != 0)
    def _bin(self, o, f):
        z = zint(o)
        if z is None: return NotImplemented
        return SInt(simp(f(self.t, z)))
    def _cmp(self, o, f):
        z = zint(o)
        if z is None: return NotImplemented
        return SBool(f(self.t, z))
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o):
        if isinstance(o, str) and len(o) == 1: return SStr(E().repeat(o, self.t))
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return SInt(-self.t)
    def __pos__(self): return self
    def __abs__(self): return SInt(z3.If(self.t < 0, -self.t, self.t))
    def __floordiv__(self, o):
        if type(o) is not int or o <= 0: raise OutOfSubset('symbolic // by %r' % o)
        return SInt(self.t / o)
    def __mod__(self, o):
        if isinstance(o, SInt) and entails(o.t > 0): return SInt(self.t % o.t)
        if type(o) is not int or o <= 0: raise OutOfSubset('symbolic %% by %r' % o)
        return SInt(self.t % o)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        if isinstance(o, SVal): return o == self
        z = zint(o)
        return False if z is None else SBool(self.t == z)
    def __ne__(self, o): return neg(self == o)

def simp(t):
    return z3.simplify(t) if t.sort() == INT else t

def zstr(x):
    if isinstance(x, SStr): return x.t
    if isinstance(x, str): return z3.StringVal(x) if x.isascii() and '\\' not in x else zlit(x)
    return None

def zlit(x):
    return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in x))

class SStr(Sym):
    __slots__ = ()
    __hash__ = Sym.__hash__
    def __bool__(self): return E().branch(self.t != z3.StringVal(''))
    def __add__(self, o):
        z = zstr(o)
        if z is None: return NotImplemented
        return SStr(cat(self.t, z))
    def __radd__(self, o):
        z = zstr(o)
        if z is None: return NotImplemented
        return SStr(cat(z, self.t))
    def __eq__(self, o):
        if isinstance(o, SVal): return o == self
        z = zstr(o)
        return False if z is None else SBool(self.t == z)
    def __ne__(self, o): return neg(self == o)
    def __mod__(self, args): return fmt(self, args)
    def __contains__(self, o): raise OutOfSubset('native contains')
    def __mul__(self, o):
        if isinstance(o, (bool, SBool)): return SStr(z3.If(zbool(o), self.t, z3.StringVal('')))
        if isinstance(o, int): 
            r = SStr(z3.StringVal(''))
            for _ in range(max(0, o)): r = r + self
            return r
        raise OutOfSubset('str * symbolic int')
    __rmul__ = __mul__
    def __lt__(self, o): return SBool(self.t < zstr(o))
    def __gt__(self, o): return SBool(zstr(o) < self.t)
    def __getitem__(self, pos):
        t = self.t
        if isinstance(pos, slice):
            if pos.step is not None: raise OutOfSubset('string slice with a step')
            base, off, n = seg_of(t)
            def norm(x, default):
                if x is None: return default
                z = zint(x)
                if z is None: raise OutOfSubset('string slice bound')
                z = z3.simplify(z)
                if not entails(z >= 0): 
                    if entails(z < 0): z = z3.If(z + n < 0, 0, z + n) if not entails(z + n >= 0) else z + n
                    else: z = z3.If(z < 0, z3.If(z + n < 0, 0, z + n), z)
                if not entails(z <= n): z = z3.If(z > n, n, z)
                return z3.simplify(z)
            a = norm(pos.start, z3.IntVal(0)); b = norm(pos.stop, n)
            if not entails(b >= a): 
                if entails(b <= a): return ''
                return SStr(z3.simplify(z3.If(b > a, z3.SubString(t, a, b - a), z3.StringVal(''))))
            r = substr(base, z3.simplify(off + a), z3.simplify(b - a))
            if z3.is_app_of(r, z3.Z3_OP_SEQ_EXTRACT): E().segs[r.get_id()] = (r, base, z3.simplify(off + a), z3.simplify(b - a))
            return SStr(r)
        z = zint(pos)
        if z is None: raise OutOfSubset('string index')
        n = z3.Length(t)
        if not E().branch(z3.And(z < n, z >= -n)): raise PyExc(IndexError('string index out of range'))
        z = z3.If(z < 0, z + n, z)
        return SStr(z3.SubString(t, z, 1))
    # --- methods
    def replace(self, a, b, count=None):
        if count is not None: raise OutOfSubset('replace with count')
        if isinstance(a, str) and len(a) == 1 and isinstance(b, str): return SStr(hom_apply({a: b}, self.t))
        raise OutOfSubset('replace(%r)' % (a,))
    def startswith(self, p):
        if isinstance(p, tuple): return SBool(z3.Or(*[z3.PrefixOf(zstr(x), self.t) for x in p]))
        return SBool(z3.PrefixOf(zstr(p), self.t))
    def endswith(self, p):
        if isinstance(p, tuple): return SBool(z3.Or(*[z3.SuffixOf(zstr(x), self.t) for x in p]))
        return SBool(z3.SuffixOf(zstr(p), self.t))
    def join(self, seq): return E().join(self, seq)
    def _un(self, name):
        if z3.is_string_value(self.t): return getattr(pystr(self.t), name)()
        f = z3.Function('str_' + name, STR, STR)
        E()._cut_used = True
        return SStr(f(self.t))
    def lower(self): return self._un('lower')
    def upper(self): return self._un('upper')
    def lstrip(self, chars=None): return strip(self, 'l', chars)
    def rstrip(self, chars=None): return strip(self, 'r', chars)
    def strip(self, chars=None): return strip(strip(self, 'r', chars), 'l', chars)
    def count(self, x):
        c = z3.Function('str_count', STR, STR, INT)(self.t, zstr(x))
        E().axiom(c >= 0)
        E().axiom((c > 0) == z3.Contains(self.t, zstr(x)))
        return SInt(c)
    def rfind_(self, sep):
        "position of the last occurrence of a character that is known to occur"
        base, off, n = seg_of(self.t)
        p = z3.Function('str_rfind', STR, INT, INT, STR, INT)(base, off, n, z3.StringVal(sep))
        e = E()
        e.axiom(z3.Implies(z3.Contains(self.t, z3.StringVal(sep)), z3.And(p >= 0, p < n, z3.SubString(base, z3.simplify(off + p), 1) == z3.StringVal(sep),
            z3.Not(z3.Contains(z3.SubString(base, z3.simplify(off + p + 1), z3.simplify(n - p - 1)), z3.StringVal(sep))))))
        return p
    def rsplit(self, sep, maxsplit=-1):
        if not (isinstance(sep, str) and len(sep) == 1 and maxsplit == 1): raise OutOfSubset('rsplit')
        if not E().branch(z3.Contains(self.t, z3.StringVal(sep))): return E().vlist([self])
        p = self.rfind_(sep)
        return E().vlist([self[:SInt(p)], self[SInt(p + 1):]])
    def rpartition(self, sep):
        if not (isinstance(sep, str) and len(sep) == 1): raise OutOfSubset('rpartition')
        if not E().branch(z3.Contains(self.t, z3.StringVal(sep))): return ('', '', self)
        p = self.rfind_(sep)
        return (self[:SInt(p)], sep, self[SInt(p + 1):])
    def rfind(self, sep):
        if not (isinstance(sep, str) and len(sep) == 1): raise OutOfSubset('rfind')
        if not E().branch(z3.Contains(self.t, z3.StringVal(sep))): return -1
        return SInt(self.rfind_(sep))

def substr(s, a, n):
    "a substring, under the name it may have been given"
    r = z3.SubString(s, a, n)
    x = E().aliases.get(r.get_id())
    return r if x is None else x[1]

def seg_of(t):
    "t as (base, offset, length): the substring of base, known to be within its bounds"
    s = E().segs.get(t.get_id())
    if s is not None: return s[1:]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        base, off, n = t.children()
        if entails(z3.And(off >= 0, n >= 0, off + n <= len_term(base))):
            E().segs[t.get_id()] = (t, base, off, n)
            return base, off, n
    return t, z3.IntVal(0), len_term(t)
def len_term(t):
    s = E().segs.get(t.get_id())
    if s is not None: return s[3]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT: return z3.simplify(z3.Sum(*[len_term(c) for c in t.children()]))
    return z3.simplify(z3.Length(t))

def strip(s, side, chars):
    f = z3.Function('%sstrip_%s' % (side, 'ws' if chars is None else 'x' + '_'.join(str(ord(c)) for c in chars)), STR, STR)
    r = f(s.t)
    e = E()
    e._cut_used = True              # known only by some axioms: a refutation is not conclusive
    e.axiom(z3.SuffixOf(r, s.t) if side == 'l' else z3.PrefixOf(r, s.t), weak=True)
    e.axiom(f(r) == r, weak=True)
    # the part removed: s is its concatenation with the result
    p = z3.Function(f.name() + '_removed', STR, STR)(s.t)
    n, m = len_term(s.t), z3.Length(r)
    e.axiom(s.t == (z3.Concat(p, r) if side == 'l' else z3.Concat(r, p)), weak=True)
    e.axiom(z3.And(z3.Length(p) == n - m, m <= n, m >= 0))
    e.axiom(z3.Implies(s.t == z3.StringVal(''), r == z3.StringVal('')))
    e.axiom(z3.Implies(s.t == z3.StringVal(''), p == z3.StringVal('')))
    x = z3.SubString(s.t, 0, z3.simplify(n - m)) if side == 'l' else z3.SubString(s.t, m, z3.simplify(n - m))
    e.aliases[x.get_id()] = (x, p)
    for c in (chars if chars is not None else ' \t\n'):
        cc = zlit(c)
        e.axiom(z3.Not(z3.PrefixOf(cc, r) if side == 'l' else z3.SuffixOf(cc, r)), weak=True)
    return SStr(r)

def cat(a, b):
    if z3.is_string_value(a) and not pystr(a): return b
    if z3.is_string_value(b) and not pystr(b): return a
    return z3.Concat(a, b)

class SVal(Sym):
    "An arbitrary Python value."
    __slots__ = ()
    __hash__ = Sym.__hash__
    def __bool__(self): return E().branch(truth_term(self.t))
    def __eq__(self, o): return SBool(pyeq_term(self.t, to_V(o)))
    def __ne__(self, o): return neg(self == o)
    def _op(self, name, *args): return E().val_op(name, self, *args)
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        return E().val_op('getattr', self, name)
    def __call__(self, *a, **k): raise OutOfSubset('native call of a symbolic value')

def _mk(name, refl=False):
    def f(self, o): return E().val_op(name, o, self) if refl else E().val_op(name, self, o)
    return f
for _n in 'add sub mul truediv floordiv mod pow lshift rshift and or xor'.split():
    setattr(SVal, '__%s__' % _n, _mk(_n)); setattr(SVal, '__r%s__' % _n, _mk(_n, True))
for _n in 'lt le gt ge'.split(): setattr(SVal, '__%s__' % _n, _mk(_n))
SVal.__neg__ = lambda self: E().val_op('neg', self)
SVal.__getitem__ = lambda self, k: E().val_op('getitem', self, k)

class SType(Sym):
    "type(x) of a symbolic value: only good for messages."
    __slots__ = ()
    __hash__ = Sym.__hash__
    def __getattr__(self, n):
        if n == '__name__': return SStr(f_str(self.t))
        raise OutOfSubset('attribute of a symbolic type')

class Poison:
    "Value of a variable that is unbound or unknown after a loop cut: any use is out of subset."

# --- structured symbolic sequences

class SSeq:
    """Immutable sequence of symbolic length `n` (z3 Int or int) with elements elem(i), i a z3 Int term.
    `at` is pure: it may be called any number of times."""
    def __init__(self, n, elem, src=None):
        self.n = n if z3.is_expr(n) else z3.IntVal(n); self.elem = elem; self.src = src
        self.cache = {}
    def at(self, i):
        i = z3.simplify(i)
        k = i.get_id()
        if k not in self.cache: self.cache[k] = (i, self.elem(i))
        return self.cache[k][1]
    def length(self): return SInt(z3.simplify(self.n))

class ZSeq(SSeq):
    "Sequence given by a z3 Seq(V) term."
    def __init__(self, term):
        self.term = term
        SSeq.__init__(self, z3.Length(term), lambda i: from_V(term[i]))

class VList(list):
    """A list created by interpreted code. Concrete content lives in the list itself; `sym` (an SSeq) replaces it otherwise.
    As a subclass of list it can be handed to native code when concrete."""
    sym = None
    frozen = False
    def __bool__(self):
        if self.sym is not None: return E().branch(self.sym.n > 0)
        return list.__len__(self) > 0
    def __iter__(self):
        if self.sym is not None: raise OutOfSubset('native iteration over a symbolic list')
        return list.__iter__(self)
    def __len__(self):
        if self.sym is not None: raise OutOfSubset('native len of a symbolic list')
        return list.__len__(self)
    def __getitem__(self, i):
        if self.sym is not None: raise OutOfSubset('native getitem of a symbolic list')
        return list.__getitem__(self, i)

class VTuple:
    "A tuple of symbolic length."
    def __init__(self, sym): self.sym = sym
    def __bool__(self): return E().branch(self.sym.n > 0)

class VDict(dict):
    """A dict created by interpreted code. Concrete content lives in the dict itself; `term` replaces it otherwise: a free-algebra
    term over d_set(d, k, v), so that the order of insertion is part of the value."""
    term = None
    def __bool__(self):
        if self.term is not None: return E().branch(self.term != d_empty)
        return dict.__len__(self) > 0
    def __len__(self):
        if self.term is not None: raise OutOfSubset('native len of a symbolic dict')
        return dict.__len__(self)
    def __iter__(self):
        if self.term is not None: raise OutOfSubset('native iteration over a symbolic dict')
        return dict.__iter__(self)

class VSet(VDict):
    "A set created empty by interpreted code: a VDict whose keys are the elements."

class VMap(VDict):
    "A dict whose order is of no importance: an array of values, ABSENT for other keys. Cannot be iterated over."

MAP = z3.ArraySort(V, V)
SORTS['map'] = MAP
ABSENT = V.nil
map_empty = z3.K(V, ABSENT)

D = z3.DeclareSort('Dict')
SORTS['dict'] = D
d_empty = z3.Const('d_empty', D)
d_set = z3.Function('d_set', D, V, V, D)
d_has = z3.Function('d_has', D, V, BOOL)
d_get = z3.Function('d_get', D, V, V)

def wrap(sort, t):
    if isinstance(sort, str): sort = SORTS[sort]
    if sort == INT: return SInt(t)
    if sort == BOOL: return SBool(t)
    if sort == STR: return SStr(t)
    if sort == V: return SVal(t)
    if sort == SEQ:
        l = VList(); l.sym = ZSeq(t); return l
    if sort == D:
        d = VDict(); d.term = t; return d
    if sort == MAP:
        d = VMap(); d.term = t; return d
    raise EngineError('wrap %s' % sort)

def from_V(t):
    t = z3.simplify(t)
    if z3.is_app(t):
        n = t.decl().name()
        if n == 'none' and t.num_args() == 0: return None
        if t.num_args() == 1:
            if n == 's': return SStr(t.arg(0)) if not z3.is_string_value(t.arg(0)) else pystr(t.arg(0))
            if n == 'i': return SInt(t.arg(0)) if not z3.is_int_value(t.arg(0)) else t.arg(0).as_long()
            if n == 'b': return SBool(t.arg(0)) if not (z3.is_true(t.arg(0)) or z3.is_false(t.arg(0))) else z3.is_true(t.arg(0))
            if n == 'o' and z3.is_int_value(t.arg(0)):
                k = t.arg(0).as_long()
                if k in E().obj_by_id: return E().obj_by_id[k]
    return E().resolve_V(t)

def to_V(x):
    "The V term of a Python or symbolic value."
    if x is None: return V.none
    if isinstance(x, SVal): return x.t
    if isinstance(x, SStr): return V.s(x.t)
    if isinstance(x, SInt): return V.i(x.t)
    if isinstance(x, SBool): return V.b(x.t)
    if isinstance(x, bool): return V.b(z3.BoolVal(x))
    if isinstance(x, int): return V.i(z3.IntVal(x))
    if isinstance(x, str): return V.s(zstr(x))
    if isinstance(x, tuple): return z3.simplify(vtuple([to_V(y) for y in x])) if False else V.cons(V.s(z3.StringVal('tuple')), vtuple([to_V(y) for y in x]))
    if isinstance(x, VTuple): return V.cons(V.s(z3.StringVal('tuple')), E().seq_term(x.sym))
    if isinstance(x, list) and getattr(x, 'sym', None) is not None: return V.cons(V.s(z3.StringVal('list')), E().seq_term(x.sym))
    if isinstance(x, list): return V.cons(V.s(z3.StringVal('list')), vtuple([to_V(y) for y in x]))
    if isinstance(x, SType): return x.t
    if isinstance(x, dict): return V.cons(V.s(z3.StringVal('dict')), z3.Function('dict_val', D, V)(E().zdict(x)))
    if isinstance(x, slice): return V.cons(V.s(z3.StringVal('slice')), vtuple([to_V(x.start), to_V(x.stop), to_V(x.step)]))
    if isinstance(x, Poison):
        from .engine import poisoned
        poisoned(x)
    vt = x.__dict__.get('_vterm') if hasattr(x, '__dict__') else None
    if vt is not None: return vt
    return V.o(z3.IntVal(E().oid(x)))

def vtuple(ts):
    r = V.nil
    for t in reversed(ts): r = V.cons(t, r)
    return r

def deref_repr(x):
    return repr(x)

def fmt(s, args):
    "s % args for a format string with %s / %% only"
    if isinstance(s, SStr):
        if not z3.is_string_value(s.t): raise OutOfSubset('symbolic format string')
        s = pystr(s.t)
    if not isinstance(args, tuple): args = (args,)
    out, i, k = SStr(z3.StringVal('')), 0, 0
    buf = ''
    while i < len(s):
        if s[i] == '%':
            if s[i+1:i+2] == '%': buf += '%'; i += 2; continue
            if s[i+1:i+2] in ('s', 'd', 'r'):
                if k >= len(args): raise PyExc(TypeError('not enough arguments for format string'))
                a = args[k]; k += 1
                out = out + buf + (E().py_repr(a) if s[i+1] == 'r' else E().py_str(a)); buf = ''; i += 2; continue
            raise OutOfSubset('format directive %s' % s[i:i+2])
        buf += s[i]; i += 1
    if k < len(args): raise PyExc(TypeError('not all arguments converted during string formatting'))
    return out + buf

def is_sym(x):
    return isinstance(x, (Sym, SSeq, VTuple, Poison)) or (isinstance(x, list) and getattr(x, 'sym', None) is not None) or (isinstance(x, VDict) and x.term is not None)

def has_sym(x, depth=3):
    if is_sym(x): return True
    if depth and isinstance(x, (list, tuple, set, frozenset)): return any(has_sym(y, depth-1) for y in x)
    if depth and isinstance(x, dict): return any(has_sym(y, depth-1) for kv in x.items() for y in kv)
    if depth and isinstance(x, slice): return is_sym(x.start) or is_sym(x.stop) or is_sym(x.step)
    return False

# ----------------------------------------------------------------------------------------------------------- recurrences

class Rec:
    """A recurrence template: R(init, 0) = init, R(init, k+1) = step(k, R(init, k)). `step` takes and returns API values."""
    def __init__(self, eng, name, sort, step):
        self.eng, self.name, self.sort, self.step = eng, name, SORTS[sort], step
        self.inst = {}
    def fun(self, init):
        init = z3.simplify(init)
        key = init.sexpr()
        if key not in self.inst:
            f = z3.Function('rec_%s_%d' % (self.name, len(self.inst)), INT, self.sort)
            self.inst[key] = (f, init, set())
            self.eng.axiom(f(0) == init)
        return self.inst[key]
    def at(self, init, k):
        f, i0, done = self.fun(init)
        k = z3.simplify(k)
        if z3.is_int_value(k) and 0 <= k.as_long() <= 8:        # small constants: unfold completely
            r = i0
            for j in range(k.as_long()): r = self.step_term(z3.IntVal(j), r)
            self.eng.axiom(f(k) == r)
            return r
        self.unfold(init, k)
        return f(k)
    def unfold(self, init, k):
        "instantiate the step axiom at k-1 -> k and k -> k+1"
        f, i0, done = self.fun(init)
        for j in (z3.simplify(k - 1), k):
            if j.get_id() in [d.get_id() for d in done]: continue
            done.add(j)
            if z3.is_int_value(j) and j.as_long() < 0: continue
            self.eng.axiom(z3.Implies(j >= 0, f(z3.simplify(j + 1)) == self.step_term(j, f(j))))
    def step_term(self, j, prev):
        r = self.eng.pure_eval(lambda: self.step(SInt(j) if not z3.is_int_value(j) else j.as_long(), wrap(self.sort, prev)))
        return unwrap(self.sort, r)

def unwrap(sort, r):
    if sort == V: return to_V(r)
    if sort == STR: return zstr(r)
    if sort == INT: return zint(r)
    if sort == BOOL: return zbool(r)
    if sort == SEQ: return E().zseq(r)
    if sort == D: return E().zdict(r)
    if sort == MAP and isinstance(r, VMap): return r.term
    raise EngineError('unwrap')

# ------------------------------------------------------------------------------------------- texts as sequences of lines



class SLines(SStr):
    "A string known as n >= 1 lines (newline-free strings) joined by newlines; n and the lines may be symbolic."
    __slots__ = ('ls',)
    __hash__ = Sym.__hash__
    def __init__(self, ls):
        self.ls = ls
        t = z3.Function('lines', SORTS['list'], STR)(E().zseq(ls))
        E().axiom((t == z3.StringVal('')) == z3.And(ls.n == 1, zstr(ls.at(z3.IntVal(0))) == z3.StringVal('')))
        SStr.__init__(self, t)
    def map(self, f):
        "f(i, line) -> line; i an int term"
        e = E(); at = self.ls.at
        return SLines(SSeq(self.ls.n, lambda i: e.pure_eval(lambda: f(i, at(i)))))
    def first(self, f): return self.map(lambda i, l: f(l) if E().branch(i == 0) else l)
    def rest(self, f): return self.map(lambda i, l: l if E().branch(i == 0) else f(l))
    def split(self, sep=None, maxsplit=-1):
        if sep != '\n' or maxsplit != -1: raise OutOfSubset('split of a text')
        return E().symlist(SSeq(self.ls.n, self.ls.at))
    def splitlines(self, keepends=False): raise OutOfSubset('splitlines of a text')
    def replace(self, a, b, count=None):
        if count is None:
            za, zb = zstr(a), zstr(b)
            x, y = after_newline(za), after_newline(zb)
            if x is not None and y is not None and nlfree(x) and nlfree(y):
                n = z3.simplify(z3.Length(x))
                def f(l):
                    z = zstr(l)
                    return SStr(z3.If(z3.PrefixOf(x, z), cat(y, z3.SubString(z, n, z3.Length(z) - n)), z))
                return self.rest(f)
            if isinstance(a, str) and isinstance(b, str) and '\n' not in a + b and len(a) == 1: return self.map(lambda i, l: SStr(zstr(l)).replace(a, b))
        return SStr.replace(self, a, b, count)
    def startswith(self, p):
        if not isinstance(p, tuple) and nlfree(zstr(p)): return SBool(z3.PrefixOf(zstr(p), zstr(self.ls.at(z3.IntVal(0)))))
        return SStr.startswith(self, p)
    def __getitem__(self, pos):
        if isinstance(pos, slice) and pos.stop is None and pos.step is None and pos.start is not None:
            k = zint(pos.start); z = zstr(self.ls.at(z3.IntVal(0)))
            if entails(z3.And(k >= 0, k <= z3.Length(z))):
                def f(l): return SStr(z3.SubString(zstr(l), k, z3.Length(zstr(l)) - k))
                return self.first(f)
        return SStr.__getitem__(self, pos)
    def __add__(self, o):
        if isinstance(o, str) and o == '': return self
        return SStr.__add__(self, o)
    def __radd__(self, o):
        z = zstr(o)
        if isinstance(o, str) and o == '': return self
        if z is not None and nlfree(z): return self.first(lambda l: SStr(cat(z, zstr(l))))
        if z is not None:
            x = after_newline(z)
            if x is not None and nlfree(x):
                old = self.ls
                def at(i):
                    e = E()
                    return e.pure_eval(lambda: '' if e.branch(i == 0) else (SStr(cat(x, zstr(old.at(z3.simplify(i - 1))))) if e.branch(i == 1) else old.at(z3.simplify(i - 1))))
                return SLines(SSeq(z3.simplify(old.n + 1), at))
        return SStr.__radd__(self, o)

def entails(c):
    e = E()
    conds = list(e.local_decisions['conds']) if e.local_decisions else []
    sc = z3.simplify(c)
    if z3.is_true(sc) or any(d.eq(c) or z3.simplify(d).eq(sc) for d in e.conds + conds): return True
    return e._check(*(conds + [z3.Not(c)])) == z3.unsat
def after_newline(z):
    "x with z = '\\n' + x"
    if z3.is_string_value(z):
        s = pystr(z); return zlit(s[1:]) if s[:1] == '\n' else None
    if z.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        c = z.children(); h = after_newline(c[0])
        if h is None: return None
        parts = ([h] if not (z3.is_string_value(h) and not pystr(h)) else []) + c[1:]
        return z3.Concat(*parts) if len(parts) > 1 else parts[0]
    return None
def nlfree(z):
    if z3.is_string_value(z): return '\n' not in pystr(z)
    k = z.decl().kind()
    if k == z3.Z3_OP_SEQ_CONCAT: return all(nlfree(c) for c in z.children())
    if k == z3.Z3_OP_ITE: return nlfree(z.arg(1)) and nlfree(z.arg(2))
    if k == z3.Z3_OP_SEQ_EXTRACT and nlfree(z.arg(0)): return True
    return entails(z3.Not(z3.Contains(z, z3.StringVal('\n'))))
