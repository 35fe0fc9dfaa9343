"""
pyvc interpreter: executes the functions of /repo/src/hypertag from their current source text (AST), over concrete Python objects
and symbolic values. Loops over symbolic sequences are cut inductively by the engine.
"""
import ast, os, sys, types, builtins, operator, itertools, functools, copy as copy_mod, re as re_mod
import z3
from . import core
from .core import *
from .engine import UNBOUND, OpError, poisoned, kind

SRC = os.environ.get('VP_SRC', '/repo/src') + '/hypertag'

class Ret(BaseException):
    def __init__(self, v): self.v = v
class Brk(BaseException): pass
class Cnt(BaseException): pass

PROGRAM_FLOW = (Ret, Brk, Cnt, PyExc)

class SymIter:
    """An iterator/iterable of symbolic length; elem(k) may have effects and is evaluated once per iteration. One-shot unless pure."""
    def __init__(self, n, elem, pure=False, src=None, chars=None):
        self.n = n if z3.is_expr(n) else z3.IntVal(n); self.elem = elem; self.pure = pure; self.src = src
        self.chars = chars          # string whose characters are iterated over, possibly with a function applied to each

class GenExp:
    "A generator expression not yet consumed."
    def __init__(self, interp, node, frame):
        self.interp, self.node, self.frame = interp, node, frame
        self.first = interp.eval(node.generators[0].iter, frame)       # evaluated eagerly, as in Python

class GenCall:
    "A generator function call not yet consumed: runs at the first consumption."
    def __init__(self, run): self.run = run; self.items = None
    def force(self):
        if self.items is None: self.items = self.run()
        return self.items

class Frame:
    def __init__(self, fn_name, glob, parent=None, cls=None, fnode=None):
        self.vars, self.name, self.glob, self.parent, self.cls, self.fnode = {}, fn_name, glob, parent, cls, fnode
        self.nonlocals = set(); self.globals_ = set(); self.yields = None
        self.depth = None
        self.closure = {}
        self.locals_ = None
        self.first_arg = None

class IFunc:
    "A function created by interpreted code (lambda, nested def)."
    def __init__(self, interp, node, frame, defaults, kwdefaults, name):
        self.interp, self.node, self.frame, self.defaults, self.kwdefaults = interp, node, frame, defaults, kwdefaults
        self.__name__ = name
    def __call__(self, *a, **k):
        return self.interp.call_ifunc(self, list(a), k)

class BoundI:
    "A method implemented by the verifier (model of a method of a symbolic or verifier-made object)."
    def __init__(self, fn): self.fn = fn
    def __call__(self, *a, **k): return self.fn(*a, **k)

class Stub:
    "A callable provided by a harness: native Python, allowed to handle symbolic values."
    def __init__(self, fn, name='stub'): self.fn, self.__name__ = fn, name
    def __call__(self, *a, **k): return self.fn(*a, **k)
    def __get__(self, obj, cls=None): return self if obj is None else Stub(lambda *a, **k: self.fn(obj, *a, **k), self.__name__)

_trees = {}
def tree_of(filename):
    if filename not in _trees:
        src = open(filename, encoding='utf-8').read()
        t = ast.parse(src, filename)
        index = {}
        for node in ast.walk(t):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                line = min([node.lineno] + [d.lineno for d in getattr(node, 'decorator_list', [])])
                index.setdefault((line, getattr(node, 'name', '<lambda>')), []).append(node)
        _trees[filename] = (t, index)
    return _trees[filename]

def node_of(fn):
    code = fn.__code__
    t, index = tree_of(code.co_filename)
    c = index.get((code.co_firstlineno, code.co_name), [])
    if len(c) == 1: return c[0]
    if len(c) > 1 and code.co_name == '<lambda>':
        pos = [p for p in code.co_positions() if p[2] is not None]
        body_cols = {(p[0], p[2]) for p in pos}
        m = [n for n in c if (n.body.lineno, n.body.col_offset) in body_cols]
        if len(m) == 1: return m[0]
    raise OutOfSubset('source of function %s not found' % code.co_name)

def in_scope(fn):
    return isinstance(fn, types.FunctionType) and fn.__code__.co_filename.startswith(SRC)

def in_scope_class(cls):
    m = sys.modules.get(getattr(cls, '__module__', None))
    return isinstance(cls, type) and m is not None and (getattr(m, '__file__', None) or '').startswith(SRC)

def has_yield(node):
    for x in iter_own(node):
        if isinstance(x, (ast.Yield, ast.YieldFrom)): return True
    return False

def iter_own(node):
    "Nodes of a function body, nested functions and lambdas excluded."
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        if isinstance(x, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            stack.extend(ast.iter_child_nodes(x)); continue
        stack.extend(ast.iter_child_nodes(x))

_locals_cache = {}
def local_names(node):
    if node not in _locals_cache:
        names, nl, gl = set(), set(), set()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs: names.add(x.arg)
        if a.vararg: names.add(a.vararg.arg)
        if a.kwarg: names.add(a.kwarg.arg)
        def walk(x, incomp=False):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)): names.add(x.name); return
            if isinstance(x, ast.Lambda): return
            if isinstance(x, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
                for y in ast.walk(x):
                    if isinstance(y, ast.NamedExpr): names.add(y.target.id)
                return
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)): names.add(x.id)
            if isinstance(x, ast.ExceptHandler) and x.name: names.add(x.name)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                for al in x.names: names.add(al.asname or al.name.split('.')[0])
            if isinstance(x, ast.Nonlocal): nl.update(x.names)
            if isinstance(x, ast.Global): gl.update(x.names)
            for y in ast.iter_child_nodes(x): walk(y)
        for st in (node.body if isinstance(node.body, list) else [node.body]): walk(st)
        _locals_cache[node] = (names - nl - gl, nl, gl)
    return _locals_cache[node]

BINOP = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
         ast.Mod: operator.mod, ast.Pow: operator.pow, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
         ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor}
OPNAME = {operator.add: 'add', operator.sub: 'sub', operator.mul: 'mul', operator.truediv: 'truediv', operator.floordiv: 'floordiv',
          operator.mod: 'mod', operator.pow: 'pow', operator.lshift: 'lshift', operator.rshift: 'rshift', operator.and_: 'and',
          operator.or_: 'or', operator.xor: 'xor', operator.lt: 'lt', operator.le: 'le', operator.gt: 'gt', operator.ge: 'ge',
          operator.eq: 'eq', operator.ne: 'ne', operator.is_: 'is', operator.is_not: 'is not'}

class Interp:

    def __init__(self, eng):
        self.e = eng
        self.stack = []
        self.inner = {}; self.inner_depth = {}     # contracts of recursive calls
        self.contracts = {}         # real function object -> handler(interp, args, kwargs)
        self.cls_contracts = {}     # class -> handler
        self.site = 'harness'

    # ------------------------------------------------------------------------------------------------ names

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Poison): poisoned(v)
                return v
            if f.locals_ is not None and name in f.locals_ and f is fr:
                raise PyExc(UnboundLocalError("local variable '%s' referenced before assignment" % name))
            if name in f.closure:
                try: return f.closure[name].cell_contents
                except ValueError: raise PyExc(NameError(name))
            f = f.parent
        if name in fr.glob: return fr.glob[name]
        if hasattr(builtins, name): return getattr(builtins, name)
        raise PyExc(NameError("name '%s' is not defined" % name))

    def assign_name(self, name, v, fr):
        f = fr
        if name in fr.globals_: raise OutOfSubset('global assignment')
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in (f.locals_ or ()) : f = f.parent
            if f is None: raise OutOfSubset('nonlocal %s' % name)
        f.vars[name] = v
        self.e.note_write(('local', f.depth, name))

    # ------------------------------------------------------------------------------------------------ calls

    def call(self, fn, args, kwargs=None, site=None):
        kwargs = kwargs or {}
        if isinstance(fn, Sym):
            if isinstance(fn, SVal):
                return self.call_value(fn, args, kwargs)
            raise OutOfSubset('call of a symbolic %s' % type(fn).__name__)
        if isinstance(fn, Stub): return fn.fn(*args, **kwargs)
        if isinstance(fn, BoundI): return fn.fn(*args, **kwargs)
        if isinstance(fn, IFunc): return self.call_ifunc(fn, args, kwargs)
        if isinstance(fn, types.MethodType):
            f = fn.__func__
            if isinstance(f, types.FunctionType): return self.call(f, [fn.__self__] + list(args), kwargs)
            if isinstance(f, (Stub, IFunc)): return self.call(f, [fn.__self__] + list(args), kwargs)
        if isinstance(fn, functools.partial):
            kw = dict(fn.keywords); kw.update(kwargs)
            return self.call(fn.func, list(fn.args) + list(args), kw)
        if isinstance(fn, types.FunctionType):
            if fn in self.contracts: return self.contracts[fn](*args, **kwargs)
            if fn in self.inner:
                if self.inner_depth.get(fn): return self.inner[fn](*args, **kwargs)
                self.inner_depth[fn] = 1
                try: return self.call_function(fn, args, kwargs)
                finally: self.inner_depth[fn] = 0
            if in_scope(fn): return self.call_function(fn, args, kwargs)
        if isinstance(fn, type) and fn in self.cls_contracts: return self.cls_contracts[fn](*args, **kwargs)
        if isinstance(fn, type) and in_scope_class(fn): return self.construct(fn, args, kwargs)
        m = MODELS.get(fn) if _hashable(fn) else None
        if m is not None: return m(self, args, kwargs)
        if isinstance(fn, types.BuiltinMethodType) and isinstance(fn.__self__, (VList, VDict)) :
            return self.container_method(fn.__self__, fn.__name__, args, kwargs)
        if not isinstance(fn, (type, types.FunctionType, types.BuiltinFunctionType)) and in_scope_class(type(fn)):
            c = getattr(type(fn), '__call__', None)
            if in_scope(c): return self.call(c, [fn] + list(args), kwargs)
        return self.native(fn, args, kwargs)

    def call_value(self, fn, args, kwargs):
        name = 'call_%d_%s' % (len(args), '_'.join(sorted(kwargs)))
        self.e.event('callvalue', fn, *args)
        return self.e.val_op(name, fn, *(list(args) + [kwargs[k] for k in sorted(kwargs)]))

    def native(self, fn, args, kwargs):
        if isinstance(fn, (types.BuiltinFunctionType, type)) and fn in self.contracts: return self.contracts[fn](*args, **kwargs)
        if isinstance(fn, types.MethodDescriptorType) and fn.__objclass__ is str and args and isinstance(args[0], SStr):
            return StrMethod(self, args[0], fn.__name__)(*args[1:], **kwargs)
        if isinstance(getattr(fn, '__self__', None), re_mod.Pattern) and any(has_sym(a) for a in args): return self.regex(fn.__self__, fn.__name__, args, kwargs)
        if any(has_sym(a) for a in args) or any(has_sym(a) for a in kwargs.values()) or any(isinstance(a, (GenExp, GenCall, SymIter, IFunc, Stub)) for a in args):
            if isinstance(fn, (types.BuiltinMethodType, types.MethodType)) and isinstance(getattr(fn, '__self__', None), (Sym,)):
                pass
            elif isinstance(fn, types.MethodWrapperType): pass
            else:
                if isinstance(fn, type) and issubclass(fn, Exception) and fn.__module__ == 'builtins' and not kwargs:
                    x = fn(); x.hargs = tuple(args)
                    return x
                raise OutOfSubset('call of native %s with symbolic arguments' % getattr(fn, '__qualname__', fn))
        try:
            return fn(*args, **kwargs)
        except Exception as ex:
            raise PyExc(ex)

    def regex(self, pat, method, args, kwargs):
        if method == 'sub' and pat.pattern == r'\n(?=.)' and not pat.flags & re_mod.S and len(args) == 2 and isinstance(args[1], SLines):
            x = after_newline(zstr(args[0]))
            if x is not None and nlfree(x) and entails(z3.Not(z3.Contains(x, z3.StringVal('\\')))):
                return args[1].rest(lambda l: SStr(z3.If(zstr(l) == z3.StringVal(''), zstr(l), cat(x, zstr(l)))))
        if method == 'sub' and len(args) == 2 and not kwargs and isinstance(args[0], str) and isinstance(args[1], (str, SStr)) and not isinstance(args[1], SLines):
            self.e._cut_used = True         # an unknown function of the text: a refutation is not conclusive
            self.e.assumptions.add('re.sub with a given pattern and replacement is a function of the text')
            return SStr(z3.Function('resub_%s_%d_%s' % (pat.pattern, pat.flags & ~re_mod.U, args[0]), STR, STR)(zstr(args[1])))
        if method == 'match' and len(args) == 1 and not kwargs and isinstance(args[0], SStr):
            self.e._cut_used = True
            self.e.assumptions.add('whether a given pattern matches a text is a function of the text')
            t = z3.Function('rematch_%s_%d' % (pat.pattern, pat.flags & ~re_mod.U), STR, BOOL)(zstr(args[0]))
            return MatchStub() if self.e.branch(t) else None
        raise OutOfSubset('regular expression %r' % pat.pattern)

    def bind(self, node, args, kwargs, defaults, kwdefaults, name):
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        star = None
        args = list(args)
        if args and isinstance(args[-1], StarSym):
            star = args.pop().seq
            if any(isinstance(x, StarSym) for x in args): raise OutOfSubset('several symbolic star arguments')
            if not a.vararg or len(args) < len(params): raise OutOfSubset('symbolic star argument bound to parameters')
        pos, extra = args[:len(params)], args[len(params):]
        for p, v in zip(params, pos): vals[p] = v
        if a.vararg:
            if star is not None:
                vals[a.vararg.arg] = VTuple(prepend(extra, star))
            else: vals[a.vararg.arg] = tuple(extra)
        elif extra: raise PyExc(TypeError('%s() takes %d positional arguments but %d were given' % (name, len(params), len(args))))
        kwargs = dict(kwargs)
        for k in list(kwargs):
            if k in vals and k in params: raise PyExc(TypeError("%s() got multiple values for argument '%s'" % (name, k)))
            if k in params or k in [x.arg for x in a.kwonlyargs]: vals[k] = kwargs.pop(k)
        if a.kwarg:
            d = VDict(kwargs); self.new(d); vals[a.kwarg.arg] = d
        elif kwargs: raise PyExc(TypeError("%s() got an unexpected keyword argument '%s'" % (name, list(kwargs)[0])))
        nd = len(defaults)
        for p, d in zip(params[len(params) - nd:] if nd else [], defaults):
            if p not in vals: vals[p] = d
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg in kwdefaults: vals[x.arg] = kwdefaults[x.arg]
                else: raise PyExc(TypeError('%s() missing a keyword-only argument' % name))
        for p in params:
            if p not in vals: raise PyExc(TypeError("%s() missing a required positional argument: '%s'" % (name, p)))
        return vals

    def call_function(self, fn, args, kwargs):
        node = node_of(fn)
        self.e.functions.add('%s:%s' % (fn.__module__, fn.__qualname__))
        fr = Frame(fn.__qualname__, fn.__globals__, fnode=node)
        code = fn.__code__
        if fn.__closure__:
            fr.closure = dict(zip(code.co_freevars, fn.__closure__))
        vals = self.bind(node, args, kwargs, fn.__defaults__ or (), fn.__kwdefaults__ or {}, fn.__name__)
        return self.run_body(node, fr, vals)

    def call_ifunc(self, f, args, kwargs):
        fr = Frame(f.__name__, f.frame.glob, parent=f.frame, fnode=f.node)
        fr.closure = {}
        vals = self.bind(f.node, args, kwargs, f.defaults, f.kwdefaults, f.__name__)
        return self.run_body(f.node, fr, vals)

    def run_body(self, node, fr, vals):
        if len(self.stack) > 60: raise OutOfSubset('recursion without a contract (%s)' % fr.name)
        fr.vars.update(vals)
        fr.locals_, fr.nonlocals, fr.globals_ = local_names(node)
        a = node.args
        first = (a.posonlyargs + a.args)[:1]
        fr.first_arg = first[0].arg if first else None
        if isinstance(node, ast.FunctionDef) and has_yield(node):
            return GenCall(lambda: self.run_gen(node, fr))
        fr.depth = len(self.stack)
        self.stack.append(fr)
        site = self.e.site
        try:
            if isinstance(node, ast.Lambda): return self.eval(node.body, fr)
            try: self.exec(node.body, fr)
            except Ret as r: return r.v
            return None
        finally:
            self.stack.pop(); self.e.site = site

    def run_gen(self, node, fr):
        self.e.assumptions.add('generators are run to exhaustion at their first consumption (interleaving with the consumer is not modelled)')
        fr.yields = VList(); self.new(fr.yields)
        fr.depth = len(self.stack)
        self.stack.append(fr)
        site = self.e.site
        try:
            try: self.exec(node.body, fr)
            except Ret: pass
            return fr.yields
        finally:
            self.stack.pop(); self.e.site = site

    def construct(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            self.e.assumptions.add('constructors of error classes terminate without raising (message formatting is a separate contract)')
            ex = cls.__new__(cls)
            ex.args = tuple(args)
            ex.hargs = tuple(args) + ((kwargs['node'],) if len(args) == 1 and 'node' in kwargs else ())
            return ex
        if issubclass(cls, (list, dict)) and in_scope(cls.__init__) and cls.__init__ in self.contracts:
            obj = cls.__new__(cls)
            self.new(obj)
            self.contracts[cls.__init__](obj, *args, **kwargs)
            return obj
        if issubclass(cls, (list, dict)) :
            if args: raise OutOfSubset('construction of %s with arguments' % cls.__name__)
            obj = cls.__new__(cls)
            cls.__init__(obj)
            self.new(obj)
            return obj
        obj = cls.__new__(cls)
        self.new(obj)
        init = getattr(cls, '__init__', None)
        if in_scope(init): self.call(init, [obj] + list(args), kwargs)
        elif init is not object.__init__: raise OutOfSubset('constructor of %s' % cls.__name__)
        elif args or kwargs: raise PyExc(TypeError('%s() takes no arguments' % cls.__name__))
        return obj

    def new(self, obj):
        self.e.register(obj)
        return obj

    # ------------------------------------------------------------------------------------------------ attributes, items, truth

    def getattr(self, obj, name):
        if isinstance(obj, Poison): poisoned(obj)
        if isinstance(obj, SStr): return StrMethod(self, obj, name)
        if isinstance(obj, SVal):
            if name == '__class__': return SType(obj.t)
            return self.e.val_op('getattr', obj, name)
        if isinstance(obj, SType): return getattr(obj, name)
        if isinstance(obj, str): return StrMethod(self, obj, name)
        if isinstance(obj, Sym): raise OutOfSubset('attribute %s of symbolic %s' % (name, type(obj).__name__))
        if isinstance(obj, (VTuple, SymIter, GenExp)): raise OutOfSubset('attribute %s of a symbolic sequence' % name)
        if isinstance(obj, (VList, VDict)): return BoundI(lambda *a, **k: self.container_method(obj, name, list(a), k))
        if isinstance(obj, SuperProxy): return obj.get(name)
        if isinstance(obj, list) and getattr(obj, 'sym', None) is not None or (isinstance(obj, list) and in_scope_class(type(obj))):
            c = getattr(type(obj), name, None)
            if isinstance(c, property) and in_scope(c.fget): return self.call(c.fget, [obj])
            if in_scope(c): return types.MethodType(c, obj)
            if name in getattr(obj, '__dict__', {}): return obj.__dict__[name]
            if c is not None and not callable(c): return c
            return BoundI(lambda *a, **k: self.container_method(obj, name, list(a), k))
        if isinstance(obj, (SymExc, OpError)): raise OutOfSubset('attribute %s of an arbitrary exception' % name)
        cls = obj if isinstance(obj, type) else type(obj)
        if not isinstance(obj, type):
            c = _mro_get(cls, name)
            if isinstance(c, property) and in_scope(c.fget): return self.call(c.fget, [obj])
            d = getattr(obj, '__dict__', None)
            if d is not None and name in d:
                v = d[name]
                if isinstance(v, Poison): poisoned(v)
                return v
        try:
            return getattr(obj, name)
        except AttributeError as ex:
            if not isinstance(obj, type) and getattr(obj, '__dict__', {}).get('_harness'):
                raise OutOfSubset('the code reads attribute %s.%s, for which the harness has no contract' % (cls.__name__, name))
            raise PyExc(ex)
        except Exception as ex:
            raise PyExc(ex)

    def setattr(self, obj, name, v):
        if isinstance(obj, (Sym, VList, VDict, VTuple)): raise OutOfSubset('setattr on a symbolic value')
        c = _mro_get(type(obj), name)
        if isinstance(c, property):
            if c.fset is None: raise PyExc(AttributeError("can't set attribute"))
            if in_scope(c.fset): self.call(c.fset, [obj, v]); return
        if isinstance(obj, (type, types.ModuleType)): raise OutOfSubset('assignment to an attribute of a class or module')
        if self.e.pure: raise OutOfSubset('attribute assignment in pure mode')
        if self.e.active and id(obj) not in self.e.oids: raise OutOfSubset('write to an unregistered object inside a loop')
        hook = obj.__dict__.get('_on_set')
        if hook: hook(name, v)
        obj.__dict__[name] = v
        if id(obj) in self.e.oids: self.e.note_write(('attr', self.e.oids[id(obj)], name))

    def truth(self, x):
        if isinstance(x, Poison): poisoned(x)
        if isinstance(x, bool): return x
        if x is None: return False
        if isinstance(x, Sym): return bool(x)
        if isinstance(x, list) and getattr(x, 'sym', None) is not None: return self.e.branch(x.sym.n > 0)
        if isinstance(x, (VDict, VTuple)): return bool(x)
        if isinstance(x, (GenExp, GenCall, SymIter, IFunc, Stub, BoundI)): return True
        if isinstance(x, (str, int, float, list, tuple, dict, set, frozenset)) and not in_scope_class(type(x)): return bool(x)
        cls = type(x)
        if in_scope_class(cls) or isinstance(getattr(x, '__dict__', {}).get('__bool__'), Stub):
            d = getattr(x, '__dict__', {})
            if isinstance(d.get('__bool__'), Stub): return self.truth(d['__bool__']())
            b = _mro_get(cls, '__bool__')
            if in_scope(b): return self.truth(self.call(b, [x]))
            l = _mro_get(cls, '__len__')
            if in_scope(l): return self.truth(self.compare(operator.ne, self.call(l, [x]), 0))
        try: return bool(x)
        except Exception as ex: raise PyExc(ex)

    def length(self, x):
        if isinstance(x, SStr): return SInt(len_term(x.t))
        if isinstance(x, VTuple): return x.sym.length()
        if isinstance(x, list) and getattr(x, 'sym', None) is not None: return x.sym.length()
        if isinstance(x, SVal): return SInt(self.len_of(x))
        if isinstance(x, VDict) and x.term is not None: raise OutOfSubset('len of a symbolic dict')
        if isinstance(x, (GenExp, GenCall, SymIter)): raise PyExc(TypeError('object of type generator has no len()'))
        d = getattr(x, '__dict__', {})
        if isinstance(d.get('__len__'), Stub): return d['__len__']()
        l = _mro_get(type(x), '__len__')
        if in_scope(l): return self.call(l, [x])
        try: return len(x)
        except Exception as ex: raise PyExc(ex)

    def len_of(self, x):
        self.e.assumptions.add('len() of an arbitrary value is a non-negative integer')
        t = z3.Function('len_of', V, INT)(x.t)
        self.e.axiom(t >= 0)
        return t

    def getitem(self, obj, k):
        if isinstance(obj, Poison): poisoned(obj)
        if isinstance(k, Poison): poisoned(k)
        if isinstance(obj, str) and has_sym(k): obj = SStr(zstr(obj))
        if isinstance(obj, SStr): return obj[k]
        if isinstance(k, SVal) and isinstance(obj, (list, tuple, VTuple)):
            if not self.e.branch(V.is_i(k.t)): raise OutOfSubset('list index that is not an integer')
            k = SInt(z3.simplify(V.iv(k.t)))
        if isinstance(obj, SVal): return self.e.val_op('getitem', obj, k)
        seq = None
        if isinstance(obj, VTuple): seq = obj.sym
        elif isinstance(obj, list) and getattr(obj, 'sym', None) is not None: seq = obj.sym
        elif isinstance(obj, (list, tuple)) and has_sym(k):
            if isinstance(k, slice): seq = conc_seq(obj)
            else:
                # concrete sequence, symbolic index
                t = zint(k)
                if t is None: raise OutOfSubset('index')
                n = len(obj)
                for i in range(n):
                    if self.e.branch(z3.Or(t == i, t == i - n)): return list.__getitem__(obj, i) if isinstance(obj, list) else obj[i]
                raise PyExc(IndexError('list index out of range'))
        if seq is not None:
            if isinstance(k, slice): 
                r = seq_slice(self.e, seq, k)
                if isinstance(obj, (VTuple, tuple)): return VTuple(r)
                return self.e.symlist(r)
            t = zint(k)
            if t is None: raise PyExc(TypeError('list indices must be integers'))
            t = z3.simplify(t)
            if not self.e.branch(z3.And(t < seq.n, t >= -seq.n)): raise PyExc(IndexError('list index out of range'))
            if self.e.branch(t < 0): t = z3.simplify(t + seq.n)
            return seq.at(t)
        if isinstance(obj, VDict): return self.dict_get(obj, k)
        if isinstance(obj, dict) and type(obj).__getitem__ is dict.__getitem__ and (has_sym(k) or _vterm(k) is not None): return self.dict_get(obj, k)
        d = getattr(obj, '__dict__', {})
        if isinstance(d.get('__getitem__'), Stub): return d['__getitem__'](k)
        g = _mro_get(type(obj), '__getitem__')
        if in_scope(g): return self.call(g, [obj, k])
        if has_sym(k) and not isinstance(obj, (type,)): raise OutOfSubset('symbolic index of %s' % type(obj).__name__)
        try:
            r = obj[k]
            if isinstance(k, slice) and isinstance(r, list) and isinstance(obj, VList): r = self.e.vlist(r)
            return r
        except Exception as ex: raise PyExc(ex)

    def setitem(self, obj, k, v):
        if self.e.pure: raise OutOfSubset('item assignment in pure mode')
        if isinstance(obj, VDict):
            if obj.term is None and not has_sym(k) and _hashable(k):
                y = self.same_key(obj, k)
                if y is not None: k = y[0]
            if obj.term is None and not has_sym(k) and _hashable(k) and not any(is_sym(x) for x in dict.keys(obj)): dict.__setitem__(obj, k, v)
            elif isinstance(obj, VMap): obj.term = z3.Store(obj.term, to_V(k), to_V(v))
            else: obj.term = d_set(self.e.zdict(obj), to_V(k), to_V(v)); dict.clear(obj)
            if id(obj) in self.e.oids: self.e.note_write(('dict', self.e.oids[id(obj)]))
            return
        if isinstance(obj, list) and getattr(obj, 'sym', None) is not None:
            seq = obj.sym; t = zint(k)
            if t is None: raise OutOfSubset('setitem')
            if not self.e.branch(z3.And(t < seq.n, t >= -seq.n)): raise PyExc(IndexError('list assignment index out of range'))
            t = z3.simplify(z3.If(t < 0, t + seq.n, t))
            term = self.e.zseq(obj)
            if isinstance(k, int) and k == -1: obj.sym = ZSeq(z3.Concat(z3.Extract(term, 0, z3.Length(term) - 1), z3.Unit(to_V(v))))
            else: obj.sym = ZSeq(z3.simplify(z3.Concat(z3.Extract(term, 0, t), z3.Unit(to_V(v)), z3.Extract(term, t + 1, z3.Length(term) - t - 1))))
            self.e.note_write(('list', self.e.oids[id(obj)]))
            return
        if isinstance(obj, VList):
            if has_sym(k): raise OutOfSubset('symbolic index assignment')
            try: list.__setitem__(obj, k, v)
            except Exception as ex: raise PyExc(ex)
            self.e.note_write(('list', self.e.oids[id(obj)]))
            return
        d = getattr(obj, '__dict__', {})
        if isinstance(d.get('__setitem__'), Stub): return d['__setitem__'](k, v)
        g = _mro_get(type(obj), '__setitem__')
        if in_scope(g): return self.call(g, [obj, k, v])
        if self.e.active: raise OutOfSubset('item assignment to a native %s inside a loop' % type(obj).__name__)
        if has_sym(k): raise OutOfSubset('symbolic key of a native %s' % type(obj).__name__)
        try: obj[k] = v
        except Exception as ex: raise PyExc(ex)

    def delitem(self, obj, k):
        if isinstance(obj, list) and isinstance(k, slice) and k.stop is None and k.step is None and (getattr(obj, 'sym', None) is not None or has_sym(k)):
            seq = self.e.zseq(obj); t = zint(k.start)
            n = z3.Length(seq)
            t = z3.If(t < 0, z3.If(t + n < 0, 0, t + n), z3.If(t > n, n, t))
            if getattr(obj, 'sym', None) is not None and not isinstance(obj.sym, ZSeq) and entails(z3.And(zint(k.start) >= 0, zint(k.start) <= obj.sym.n)):
                obj.sym = SSeq(z3.simplify(zint(k.start)), obj.sym.at)
                if id(obj) in self.e.oids: self.e.note_write(('list', self.e.oids[id(obj)]))
                return
            obj.sym = ZSeq(z3.simplify(z3.Extract(seq, 0, t))); list.clear(obj)
            if id(obj) in self.e.oids: self.e.note_write(('list', self.e.oids[id(obj)]))
            return
        if isinstance(obj, VMap):
            if not self.truth(self.contains(obj, k)): raise PyExc(KeyError(k))
            obj.term = z3.Store(obj.term, to_V(k), ABSENT)
            if id(obj) in self.e.oids: self.e.note_write(('dict', self.e.oids[id(obj)]))
            return
        if isinstance(obj, VDict) and obj.term is not None:
            raise OutOfSubset('del on a symbolic dict')
        d = getattr(obj, '__dict__', {})
        if isinstance(d.get('__delitem__'), Stub): return d['__delitem__'](k)
        if has_sym(k) or getattr(obj, 'sym', None) is not None: raise OutOfSubset('symbolic del')
        try: del obj[k]
        except Exception as ex: raise PyExc(ex)
        if id(obj) in self.e.oids: self.e.note_write(('list' if isinstance(obj, list) else 'dict', self.e.oids[id(obj)]))

    def dict_get(self, obj, k):
        if isinstance(k, Poison): poisoned(k)
        if isinstance(obj, VDict) and obj.term is not None or has_sym(k) or any(is_sym(x) for x in dict.keys(obj)):
            if not self.contains(obj, k): raise PyExc(KeyError(k))
            return from_V(dget(self.e.zdict(obj), to_V(k)))
        y = self.same_key(obj, k)
        if y is not None: return dict.__getitem__(obj, y[0])
        try: return dict.__getitem__(obj, k)
        except Exception as ex: raise PyExc(ex)

    def same_key(self, d, k):
        "the key of a native dict equal to k, when identities of objects are symbolic"
        if _vterm(k) is None and not any(_vterm(y) is not None for y in dict.keys(d)): return None
        for y in dict.keys(d):
            if y is k: return (y,)
        for y in dict.keys(d):
            if _plain_object(y) and _plain_object(k) and self.e.branch(to_V(y) == to_V(k)): return (y,)
        return None

    def contains(self, c, x):
        if isinstance(c, Poison): poisoned(c)
        if isinstance(c, (str, SStr)):
            if isinstance(x, str) and isinstance(c, str): return x in c
            if zstr(x) is None:
                if isinstance(x, SVal): raise OutOfSubset('containment of an arbitrary value in a string')
                raise PyExc(TypeError("'in <string>' requires string as left operand"))
            return SBool(z3.simplify(z3.Contains(zstr(c), zstr(x))))
        if isinstance(c, SVal): return SBool(truth_term(self.e.val_op('contains', c, x).t))
        if isinstance(c, dict) and not in_scope_class(type(c)):
            if isinstance(c, VDict) and c.term is not None or has_sym(x) or any(is_sym(y) for y in dict.keys(c)):
                return SBool(z3.simplify(dhas(self.e.zdict(c), to_V(x))))
            if self.same_key(c, x) is not None: return True
        d = getattr(c, '__dict__', {})
        if isinstance(d.get('__contains__'), Stub): return d['__contains__'](x)
        g = _mro_get(type(c), '__contains__')
        if in_scope(g): return self.call(g, [c, x])
        if isinstance(c, list) and getattr(c, 'sym', None) is not None or isinstance(c, (VTuple, SSeq)):
            return SBool(z3.Contains(self.e.zseq(c), z3.Unit(to_V(x))))
        if isinstance(c, (list, tuple, set, frozenset)) and (has_sym(c) or has_sym(x)):
            ts = [self.eq_term(x, y) for y in (list.__iter__(c) if isinstance(c, list) else c)]
            return SBool(z3.Or(*ts)) if ts else False
        if has_sym(x): raise OutOfSubset('symbolic containment in %s' % type(c).__name__)
        try: return x in c
        except Exception as ex: raise PyExc(ex)

    def eq_term(self, a, b):
        r = self.compare(operator.eq, a, b)
        return zbool(r)

    def compare(self, op, a, b):
        if isinstance(a, Poison): poisoned(a)
        if isinstance(b, Poison): poisoned(b)
        if op in (operator.is_, operator.is_not):
            r = self.identical(a, b)
            return r if op is operator.is_ else neg(r) if not isinstance(r, bool) else not r
        if not (is_sym(a) or is_sym(b)):
            if op in (operator.eq, operator.ne) and isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (has_sym(a) or has_sym(b)):
                if isinstance(a, list) != isinstance(b, list) or len(a) != len(b): return op is operator.ne
                r = z3.And(*[self.eq_term(x, y) for x, y in zip(a, b)])
                return SBool(r if op is operator.eq else z3.Not(r))
            d = getattr(a, '__dict__', {})
            if isinstance(d.get('__eq__'), Stub) and op in (operator.eq, operator.ne):
                r = d['__eq__'](b); return r if op is operator.eq else neg(r)
            if isinstance(a, (GenExp, IFunc, Stub)): return (a is b) if op is operator.eq else (a is not b)
            try: return op(a, b)
            except Exception as ex: raise PyExc(ex)
        if op in (operator.eq, operator.ne):
            ka, kb = kind(a), kind(b)
            if isinstance(a, SVal) or isinstance(b, SVal) or ka is None or kb is None or (ka != kb and 'list' not in (ka, kb)):
                if ka in ('int', 'bool') and kb in ('int', 'bool'): r = SBool(zint(a) == zint(b))
                elif ka in ('int', 'bool', 'str') and kb in ('int', 'bool', 'str'): r = False
                else:
                    r = SBool(pyeq_term(to_V(a), to_V(b)))
            elif ka == 'list': r = SBool(self.e.zseq(a) == self.e.zseq(b))
            elif ka == 'dict': r = SBool(self.e.zdict(a) == self.e.zdict(b))
            else: r = a == b
            return r if op is operator.eq else neg(r)
        # order
        ka, kb = kind(a), kind(b)
        if ka in ('int', 'bool') and kb in ('int', 'bool'):
            return SBool(op(zint(a), zint(b)))
        if ka == kb == 'str':
            x, y = zstr(a), zstr(b)
            return SBool({operator.lt: lambda: x < y, operator.le: lambda: x <= y, operator.gt: lambda: y < x, operator.ge: lambda: y <= x}[op]())
        return self.e.val_op(OPNAME[op], a, b)

    def identical(self, a, b):
        if not is_sym(a) and not is_sym(b): return a is b
        if a is b: return True
        for x, y in ((a, b), (b, a)):
            if y is None or isinstance(y, bool):
                if isinstance(x, SVal): return SBool(x.t == to_V(y))
                if isinstance(x, SBool) and isinstance(y, bool): return x == y
                return False
        if isinstance(a, SVal) or isinstance(b, SVal):
            x, y = to_V(a), to_V(b)
            self.e.assumptions.add('identity (is) of strings and numbers is taken for equality of value')
            return SBool(x == y)
        if isinstance(a, SBool) and isinstance(b, (bool, SBool)): return a == b
        ka, kb = kind(a), kind(b)
        if ka != kb: return False
        raise OutOfSubset('identity of symbolic values')

    def binop(self, op, a, b):
        if isinstance(a, Poison): poisoned(a)
        if isinstance(b, Poison): poisoned(b)
        if op is operator.mod and isinstance(a, (str, SStr)): 
            if isinstance(a, str) and not has_sym(b) and not (isinstance(b, tuple) and any(_custom(x) for x in b)) and not _custom(b):
                try: return a % b
                except Exception as ex: raise PyExc(ex)
            return fmt(SStr(zstr(a)) if isinstance(a, str) else a, b)
        if isinstance(a, (list, VTuple)) and isinstance(b, (list, VTuple)) and op is operator.add and (has_sym(a, 0) or has_sym(b, 0)):
            syms = [getattr(x, 'sym', None) for x in (a, b)]
            if not any(isinstance(x, ZSeq) for x in syms):
                return self.e.symlist(cat_seqs([x if x is not None else conc_seq(list(list.__iter__(y))) for x, y in zip(syms, (a, b))]))
            return self.e.symlist(ZSeq(z3.simplify(z3.Concat(self.e.zseq(a), self.e.zseq(b)))))
        if isinstance(a, tuple) and isinstance(b, VTuple) and op is operator.add:
            return VTuple(prepend(list(a), b.sym))
        if isinstance(a, VTuple) and isinstance(b, (tuple, VTuple)) and op is operator.add:
            if isinstance(b, tuple) and not b: return a
            return VTuple(ZSeq(z3.simplify(z3.Concat(self.e.zseq(a), self.e.zseq(b)))))
        if isinstance(a, SSeqTypes) or isinstance(b, SSeqTypes): raise OutOfSubset('operator on a symbolic sequence')
        if not is_sym(a) and not is_sym(b):
            try:
                r = op(a, b)
                if type(r) is list or (isinstance(r, list) and isinstance(a, VList)): r = self.e.vlist(list.__iter__(r))
                return r
            except Exception as ex: raise PyExc(ex)
        if op is operator.add:
            if isinstance(a, SVal) and kind(b) == 'str': a = self.narrow_str(a)
            elif isinstance(b, SVal) and kind(a) == 'str': b = self.narrow_str(b)
        if isinstance(a, SVal) or isinstance(b, SVal): return self.e.val_op(OPNAME[op], a, b)
        if not is_sym(a) and kind(a) is None or not is_sym(b) and kind(b) is None:
            if kind(a) and kind(b): pass
            else: return self.e.val_op(OPNAME[op], a, b)
        if op is operator.mul and kind(a) == 'bool' and kind(b) == 'str':
            return SStr(z3.If(zbool(a), zstr(b), z3.StringVal('')))
        if op is operator.mul and kind(a) == 'int' and kind(b) == 'str': a, b = b, a
        if op is operator.mul and kind(a) == 'str' and kind(b) == 'int':
            if isinstance(b, SInt):
                if isinstance(a, str) and len(a) == 1: return SStr(self.e.repeat(a, b.t))
                raise OutOfSubset('str * symbolic int')
            return (a if isinstance(a, SStr) else SStr(zstr(a))) * b
        ka, kb = kind(a), kind(b)
        if 'str' in (ka, kb) and ka != kb: raise PyExc(TypeError('unsupported operand types'))
        try: r = op(a, b)
        except TypeError as ex: raise PyExc(ex)
        return r

    def narrow_str(self, v):
        "v as a string, if this path implies that it is one"
        conds = self.e.local_decisions['conds'] if self.e.local_decisions else []
        if self.e._check(*(list(conds) + [z3.Not(V.is_s(v.t))])) == z3.unsat: return SStr(z3.simplify(V.sv(v.t)))
        return v

    # ------------------------------------------------------------------------------------------------ containers

    def container_method(self, obj, name, args, kwargs):
        e = self.e
        if isinstance(obj, list):
            note = lambda: e.note_write(('list', e.oids[id(obj)])) if id(obj) in e.oids else None
            sym = getattr(obj, 'sym', None)
            if name == 'append':
                if e.pure: raise OutOfSubset('append in pure mode')
                if sym is not None and not isinstance(sym, ZSeq): obj.sym = cat_seqs([sym, conc_seq([args[0]])])
                elif sym is not None: obj.sym = ZSeq(z3.simplify(z3.Concat(e.zseq(obj), z3.Unit(to_V(args[0])))))
                else: list.append(obj, args[0])
                return note()
            if name == 'extend':
                self.extend(obj, args[0]); return
            if name == 'pop' and not args:
                if sym is None:
                    try: r = list.pop(obj)
                    except Exception as ex: raise PyExc(ex)
                elif not isinstance(sym, ZSeq):
                    if not e.branch(sym.n > 0): raise PyExc(IndexError('pop from empty list'))
                    r = sym.at(z3.simplify(sym.n - 1))
                    obj.sym = SSeq(z3.simplify(sym.n - 1), sym.at)
                else:
                    t = e.zseq(obj)
                    if not e.branch(z3.Length(t) > 0): raise PyExc(IndexError('pop from empty list'))
                    r = sym.at(z3.simplify(sym.n - 1))
                    obj.sym = ZSeq(z3.simplify(z3.Extract(t, 0, z3.Length(t) - 1)))
                note(); return r
            if name == 'copy' or name == '__iter__':
                return self.to_list(obj)
            if sym is None and name in ('index', 'count', 'reverse', 'insert', 'sort', 'clear', 'remove', 'pop'):
                if any(has_sym(a) for a in args) or has_sym(obj): raise OutOfSubset('list.%s' % name)
                try: r = getattr(list, name)(obj, *args, **kwargs)
                except Exception as ex: raise PyExc(ex)
                note(); return r
            raise OutOfSubset('list.%s' % name)
        if isinstance(obj, VSet):
            if name == 'add': return self.setitem(obj, args[0], True)
            if name == '__contains__': return self.contains(obj, args[0])
            if name == 'copy': 
                d = VSet(); d.term = obj.term; dict.update(d, {} if obj.term is not None else obj); return self.new(d)
            if name == 'update':
                for a in args:
                    it = self.iterate(a)
                    if isinstance(it, SymIter): raise OutOfSubset('set.update by a symbolic iterable')
                    for x in it: self.setitem(obj, x, True)
                return
            raise OutOfSubset('set.%s' % name)
        if isinstance(obj, dict):
            note = lambda: e.note_write(('dict', e.oids[id(obj)])) if id(obj) in e.oids else None
            if name == 'get':
                k, d = args[0], (args[1] if len(args) > 1 else None)
                if isinstance(obj, VDict) and obj.term is not None or has_sym(k):
                    if not self.truth(self.contains(obj, k)): return d
                    return from_V(dget(e.zdict(obj), to_V(k)))
                try: return dict.get(obj, k, d)
                except Exception as ex: raise PyExc(ex)
            if isinstance(obj, VDict) and obj.term is not None:
                if name == 'copy':
                    d = type(obj)(); d.term = obj.term; return self.new(d)
                if name == 'pop' and isinstance(obj, VMap):
                    if not self.truth(self.contains(obj, args[0])):
                        if len(args) > 1: return args[1]
                        raise PyExc(KeyError(args[0]))
                    r = from_V(dget(obj.term, to_V(args[0])))
                    self.delitem(obj, args[0]); return r
                if name == 'setdefault' and isinstance(obj, VMap):
                    if not self.truth(self.contains(obj, args[0])): self.setitem(obj, args[0], args[1] if len(args) > 1 else None)
                    return from_V(dget(obj.term, to_V(args[0])))
                if name == 'update' and args and isinstance(obj, VMap) and isinstance(args[0], dict) and getattr(args[0], 'term', None) is None:
                    for k, v in dict.items(args[0]): self.setitem(obj, k, v)
                    return
                if name in ('items', 'keys', 'values') and not isinstance(obj, VMap):
                    return e.symlist(self.entries(obj, {'items': None, 'keys': 0, 'values': 1}[name]))
                raise OutOfSubset('%s of a symbolic dict' % name)
            if name in ('items', 'keys', 'values'): return e.vlist(list(getattr(dict, name)(obj)))
            if name == 'copy': return self.new(VDict(obj))
            if name == 'update':
                if args:
                    if isinstance(args[0], VDict) and args[0].term is not None:
                        if dict.__len__(obj) or kwargs: raise OutOfSubset('update by a symbolic dict')
                        obj.term = args[0].term
                        note(); return
                    for k, v in dict.items(args[0]): self.setitem(obj, k, v)
                for k, v in kwargs.items(): self.setitem(obj, k, v)
                return
            if name in ('pop', 'setdefault', 'popitem', 'clear'):
                if any(has_sym(a) for a in args[:1]): raise OutOfSubset('dict.%s' % name)
                try: r = getattr(dict, name)(obj, *args)
                except Exception as ex: raise PyExc(ex)
                note(); return r
            raise OutOfSubset('dict.%s' % name)
        raise OutOfSubset('method %s' % name)

    def extend(self, obj, other):
        e = self.e
        if e.pure: raise OutOfSubset('extend in pure mode')
        it = self.iterate(other)
        if isinstance(it, SymIter) or getattr(obj, 'sym', None) is not None:
            src = other if isinstance(other, (list, tuple, VTuple)) else self.to_list(other)
            ss = getattr(src, 'sym', None)
            if getattr(obj, 'sym', None) is None and list.__len__(obj) == 0 and isinstance(src, VList) and ss is not None: obj.sym = ss
            else: obj.sym = ZSeq(z3.simplify(z3.Concat(e.zseq(obj), e.zseq(src)))); list.clear(obj)
        else:
            for x in it: list.append(obj, x)
        if id(obj) in e.oids: e.note_write(('list', e.oids[id(obj)]))

    # --- iteration

    def iterate(self, x):
        "Returns a Python iterator (concrete length) or a SymIter."
        if isinstance(x, Poison): poisoned(x)
        if isinstance(x, SymIter): return x
        if isinstance(x, GenExp): return self.genexp_iter(x)
        if isinstance(x, GenCall): return self.iterate(x.force())
        if isinstance(x, SSeq): return SymIter(x.n, x.at, pure=True, src=x)
        if isinstance(x, VTuple): return SymIter(x.sym.n, x.sym.at, pure=True, src=x.sym)
        if isinstance(x, list) and getattr(x, 'sym', None) is not None: return SymIter(x.sym.n, x.sym.at, pure=True, src=x.sym)
        if isinstance(x, VList): return iter(list(list.__iter__(x)))
        if isinstance(x, SVal):
            return self.iterate_value(x)
        if isinstance(x, SStr):
            t = x.t
            return SymIter(len_term(t), lambda i: SStr(z3.SubString(t, i, 1)), pure=True, chars=(t, lambda c: c))
        if isinstance(x, Sym): raise PyExc(TypeError('not iterable'))
        if isinstance(x, VDict):
            if x.term is not None:
                src = self.entries(x, 0)
                return SymIter(src.n, src.at, pure=True, src=src)
            return iter(list(dict.__iter__(x)))
        d = getattr(x, '__dict__', {})
        if isinstance(d.get('__iter__'), Stub): return self.iterate(d['__iter__']())
        g = _mro_get(type(x), '__iter__')
        if in_scope(g): return self.iterate(self.call(g, [x]))
        if g is None and in_scope(_mro_get(type(x), '__getitem__')): raise OutOfSubset('iteration through __getitem__')
        try: return iter(x)
        except Exception as ex: raise PyExc(ex)

    def entries(self, d, part=None):
        "the items (keys, values) of a dict of unknown size, in their order"
        known = self.e.dict_entries.get(d.term.get_id())
        if known is None: raise OutOfSubset('iteration over a symbolic dict')
        src = known[1]
        return src if part is None else SSeq(src.n, lambda i: src.at(i)[part])

    def iterate_value(self, x):
        "An arbitrary value: either not iterable, or yields arbitrary elements."
        e = self.e
        e.assumptions.add('iteration over an arbitrary value yields an arbitrary finite sequence of values or raises TypeError at once')
        it = z3.Function('iterable', V, BOOL)(x.t)
        if not e.branch(it): raise PyExc(TypeError('object is not iterable'))
        return SymIter(self.iter_len(x), lambda i: self.iter_elem(x, i), pure=True)

    def iter_len(self, x):
        t = z3.Function('iter_len', V, INT)(x.t)
        self.e.axiom(t >= 0)
        return t

    def iter_elem(self, x, i):
        return SVal(z3.Function('iter_elem', V, INT, V)(x.t, i))

    def genexp_iter(self, g):
        node = g.node
        if len(node.generators) != 1:
            return iter(self.comp_list(node, g.frame, g.first))
        gen = node.generators[0]
        src = self.iterate(g.first)
        if isinstance(src, SymIter):
            if gen.ifs: return self.iterate(self.filtered(node, gen, src, g.frame))
            def elem(i):
                fr = self.comp_frame(g.frame)
                self.bind_target(gen.target, src.elem(i), fr)
                return self.eval(node.elt, fr)
            chars = None
            if src.chars is not None:
                def char(c):
                    fr = self.comp_frame(g.frame)
                    self.bind_target(gen.target, src.chars[1](c), fr)
                    return self.eval(node.elt, fr)
                chars = (src.chars[0], char)
            return SymIter(src.n, elem, chars=chars)
        def run():
            for v in src:
                fr = self.comp_frame(g.frame)
                self.bind_target(gen.target, v, fr)
                if all(self.truth(self.eval(c, fr)) for c in gen.ifs):
                    yield self.eval(node.elt, fr)
        return run()

    def comp_frame(self, frame):
        fr = Frame(frame.name + '.<comp>', frame.glob, parent=frame)
        fr.depth = 10**6
        fr.locals_ = None
        fr.first_arg = frame.first_arg; fr.fnode = frame.fnode; fr.closure = frame.closure
        return fr

    def filtered(self, node, gen, src, frame):
        "List of elements of a symbolic sequence that pass a filter: accumulated through an inductive loop."
        acc = VList(); self.new(acc)
        fr0 = self.comp_frame(frame)
        def body(k):
            self.bind_target(gen.target, src.elem(k), fr0)
            if all(self.truth(self.eval(c, fr0)) for c in gen.ifs):
                v = self.eval(node.elt if not isinstance(node, ast.DictComp) else node.key, fr0)
                self.container_method(acc, 'append', [v], {})
            return 'next'
        self.cut(node, src.n, body)
        return acc

    def to_list(self, x):
        it = self.iterate(x)
        if isinstance(it, SymIter): return self.e.symlist(self.materialize(it, x))
        return self.e.vlist(list(self.drain(it)))

    def drain(self, it):
        while True:
            try: v = next(it)
            except StopIteration: return
            except Exception as ex: raise PyExc(ex)
            yield v

    def materialize(self, it, x=None, key=None):
        "Consume a SymIter into an SSeq. Effects of evaluating the elements are accounted for by an inductive loop."
        if it.pure: return it.src if it.src is not None else SSeq(it.n, it.elem)
        e = self.e
        if e.pure:
            return SSeq(it.n, lambda i: e.pure_eval(lambda: it.elem(i)))
        node = x.node if isinstance(x, GenExp) else key if key is not None else None
        def body(k):
            it.elem(k)
            return 'next'
        self.cut(node or self.cur, it.n, body)
        return SSeq(it.n, lambda i: e.pure_eval(lambda: it.elem(i)))

    def cut(self, node, n, body, cond=None):
        if n is not None and not self.e.pure:
            n = z3.simplify(n)
            if z3.is_int_value(n) and n.as_long() <= 8:             # not inductive at all
                for i in range(max(n.as_long(), 0)):
                    if body(z3.IntVal(i)) == 'break': return 'break'
                return 'done'
        frames = {f.depth: f for f in self.stack}
        f = self.stack[-1].parent if self.stack else None
        while f is not None:
            if f.depth is not None and f.depth < 10**6: frames.setdefault(f.depth, f)
            f = f.parent
        key = (getattr(self.stack[-1].fnode, 'lineno', 0) if self.stack else 0, self.stack[-1].name if self.stack else '', getattr(node, 'lineno', 0),
               getattr(node, 'col_offset', 0), type(node).__name__, tuple(f.name for f in self.stack), getattr(self.e, 'harness_calls', 0))
        depth = len(self.stack)
        ctx = dict(frames=frames, absent=set())
        return self.e.cut_loop(key, z3.simplify(n) if n is not None else None, body, ctx, cond)

    # ------------------------------------------------------------------------------------------------ statements

    def exec(self, stmts, fr):
        for st in stmts: self.stmt(st, fr)

    def stmt(self, st, fr):
        self.cur = st
        self.e.site = (fr.name, st.lineno, len(self.stack))
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None: raise OutOfSubset('statement %s' % type(st).__name__)
        return m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant): return
        self.eval(st.value, fr)

    def s_Pass(self, st, fr): pass
    def s_Break(self, st, fr): raise Brk()
    def s_Continue(self, st, fr): raise Cnt()
    def s_Return(self, st, fr): raise Ret(self.eval(st.value, fr) if st.value else None)
    def s_Global(self, st, fr): pass
    def s_Nonlocal(self, st, fr): pass

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets: self.bind_target(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None: self.bind_target(st.target, self.eval(st.value, fr), fr)

    def bind_target(self, t, v, fr):
        if isinstance(t, ast.Name): self.assign_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute): self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Starred): raise OutOfSubset('starred target')
        else: raise OutOfSubset('target %s' % type(t).__name__)

    def unpack(self, elts, v, fr):
        N = len(elts)
        stars = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)]
        it = self.iterate(v)
        if isinstance(it, SymIter):
            if stars:
                s = self.materialize(it)
                if stars[0] != N - 1: raise OutOfSubset('starred target not last')
                if not self.e.branch(s.n >= N - 1): raise PyExc(ValueError('not enough values to unpack'))
                for i in range(N - 1): self.bind_target(elts[i], s.at(z3.IntVal(i)), fr)
                self.bind_target(elts[-1].value, self.e.symlist(seq_slice(self.e, s, slice(N - 1, None))), fr)
                return
            # the iterator is advanced at most N+1 times
            items = []
            for i in range(N):
                if not self.e.branch(it.n > i): raise PyExc(ValueError('not enough values to unpack (expected %d, got %d)' % (N, i)))
                items.append(it.elem(z3.IntVal(i)))
            if self.e.branch(it.n > N):
                if not it.pure: it.elem(z3.IntVal(N))
                raise PyExc(ValueError('too many values to unpack (expected %d)' % N))
        else:
            items = list(self.drain(it))
            if stars:
                if len(items) < N - 1: raise PyExc(ValueError('not enough values to unpack'))
                a = stars[0]; b = len(items) - (N - 1 - a)
                for x, y in zip(elts[:a], items[:a]): self.bind_target(x, y, fr)
                self.bind_target(elts[a].value, self.e.vlist(items[a:b]), fr)
                for x, y in zip(elts[a+1:], items[b:]): self.bind_target(x, y, fr)
                return
            if len(items) < N: raise PyExc(ValueError('not enough values to unpack (expected %d, got %d)' % (N, len(items))))
            if len(items) > N: raise PyExc(ValueError('too many values to unpack (expected %d)' % N))
        for x, y in zip(elts, items): self.bind_target(x, y, fr)

    def s_AugAssign(self, st, fr):
        op = BINOP[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            self.assign_name(t.id, self.augment(op, cur, self.eval(st.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augment(op, cur, self.eval(st.value, fr)))
        else:
            o = self.eval(t.value, fr); k = self.eval(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.augment(op, cur, self.eval(st.value, fr)))

    def augment(self, op, cur, v):
        if op is operator.add and isinstance(cur, list) and isinstance(cur, VList):
            self.extend(cur, v); return cur
        if isinstance(cur, list) and not isinstance(cur, VList) and self.e.active: raise OutOfSubset('in-place operation on a native list inside a loop')
        return self.binop(op, cur, v)

    def s_If(self, st, fr):
        self.exec(st.body if self.truth(self.eval(st.test, fr)) else st.orelse, fr)

    def s_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            raise PyExc(AssertionError(*([self.eval(st.msg, fr)] if st.msg else [])))

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Subscript): self.delitem(self.eval(t.value, fr), self.eval(t.slice, fr))
            elif isinstance(t, ast.Name): fr.vars.pop(t.id, None); self.e.note_write(('local', fr.depth, t.id))
            else: raise OutOfSubset('del of an attribute')

    def s_FunctionDef(self, st, fr):
        if st.decorator_list: raise OutOfSubset('decorated nested function')
        self.assign_name(st.name, self.make_func(st, fr, st.name), fr)

    def make_func(self, node, fr, name):
        a = node.args
        defaults = tuple(self.eval(d, fr) for d in a.defaults)
        kwd = {x.arg: self.eval(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return IFunc(self, node, fr, defaults, kwd, name)

    def s_Import(self, st, fr):
        for al in st.names:
            m = __import__(al.name)
            self.assign_name(al.asname or al.name.split('.')[0], sys.modules[al.name] if al.asname else m, fr)

    def s_ImportFrom(self, st, fr):
        import importlib
        name = ('.' * st.level) + (st.module or '')
        m = importlib.import_module(name, fr.glob.get('__package__') or fr.glob['__name__'].rpartition('.')[0])
        for al in st.names: self.assign_name(al.asname or al.name, getattr(m, al.name), fr)

    def s_Raise(self, st, fr):
        if st.exc is None:
            ex = getattr(self, 'handling', [])
            if not ex: raise PyExc(RuntimeError('No active exception to reraise'))
            raise PyExc(ex[-1])
        x = self.eval(st.exc, fr)
        if isinstance(x, type): x = self.call(x, [])
        if st.cause is not None: self.eval(st.cause, fr)
        raise PyExc(x)

    def s_Try(self, st, fr):
        try:
            try:
                depth = len(self.stack)
                self.exec(st.body, fr)
            except PyExc as e:
                h = None
                for hd in st.handlers:
                    if hd.type is None or self.exc_match(e.exc, self.eval(hd.type, fr)): h = hd; break
                if h is None: raise
                if h.name: self.assign_name(h.name, e.exc, fr)
                if not hasattr(self, 'handling'): self.handling = []
                self.handling.append(e.exc)
                try: self.exec(h.body, fr)
                finally: self.handling.pop()
                if h.name: fr.vars.pop(h.name, None)
            else:
                self.exec(st.orelse, fr)
        except PROGRAM_FLOW:
            if st.finalbody: self.exec(st.finalbody, fr)
            raise
        if st.finalbody: self.exec(st.finalbody, fr)

    def exc_match(self, exc, cls):
        if isinstance(exc, SymExc): return self.truth(exc.match(self.e, cls))
        if isinstance(exc, OpError): return self.truth(op_match(exc, cls))
        try: return isinstance(exc, cls)
        except TypeError: raise OutOfSubset('exception class')

    def s_With(self, st, fr):
        def run(items):
            if not items: self.exec(st.body, fr); return
            mgr = self.eval(items[0].context_expr, fr)
            v = self.call(self.getattr(mgr, '__enter__'), [])
            ex = self.getattr(mgr, '__exit__')
            if items[0].optional_vars is not None: self.bind_target(items[0].optional_vars, v, fr)
            try: run(items[1:])
            except PyExc as e:
                if not self.truth(self.call(ex, [type(e.exc), e.exc, None])): raise
                return
            except PROGRAM_FLOW:
                self.call(ex, [None, None, None]); raise
            self.call(ex, [None, None, None])
        run(st.items)

    def s_For(self, st, fr):
        it = self.iterate(self.eval(st.iter, fr))
        if isinstance(it, SymIter):
            def body(k):
                self.bind_target(st.target, it.elem(k), fr)
                try: self.exec(st.body, fr)
                except Cnt: pass
                except Brk: return 'break'
                return 'next'
            r = self.cut(st, it.n, body)
            if r != 'break': self.exec(st.orelse, fr)
            return
        for v in self.drain(it):
            self.bind_target(st.target, v, fr)
            try: self.exec(st.body, fr)
            except Cnt: continue
            except Brk: return
        self.exec(st.orelse, fr)

    CONCRETE_WHILE = 40
    def s_While(self, st, fr):
        # run concretely as long as the condition is decided; at the first symbolic condition switch to the inductive cut
        n = 0
        while True:
            c = self.probe(st.test, fr)
            if c is None: break
            if c is False:
                self.exec(st.orelse, fr); return
            n += 1
            if n > self.CONCRETE_WHILE: raise OutOfSubset('while loop with too many concrete iterations')
            try: self.exec(st.body, fr)
            except Cnt: continue
            except Brk: return
        def cond(): return self.truth(self.eval(st.test, fr))
        def body(k):
            try: self.exec(st.body, fr)
            except Cnt: pass
            except Brk: return 'break'
            return 'next'
        if self.cut(st, None, body, cond) != 'break': self.exec(st.orelse, fr)

    def probe(self, test, fr):
        "Value of a loop condition if it is pure, of names and constants only, and decided on this path; None otherwise."
        for x in ast.walk(test):
            if isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.NamedExpr)): return None
        v = self.eval(test, fr)
        if is_sym(v) and not isinstance(v, Sym): return None
        if isinstance(v, Sym):
            t = z3.simplify(zbool(v))
            if z3.is_true(t): return True
            if z3.is_false(t): return False
            return None
        return self.truth(v)

    # ------------------------------------------------------------------------------------------------ expressions

    def eval(self, x, fr):
        m = getattr(self, 'e_' + type(x).__name__, None)
        if m is None: raise OutOfSubset('expression %s' % type(x).__name__)
        return m(x, fr)

    def e_Constant(self, x, fr): return x.value
    def e_Name(self, x, fr): return self.lookup(x.id, fr)
    def e_Attribute(self, x, fr): return self.getattr(self.eval(x.value, fr), x.attr)
    def e_Subscript(self, x, fr): return self.getitem(self.eval(x.value, fr), self.eval(x.slice, fr))
    def e_Slice(self, x, fr):
        return slice(*(self.eval(y, fr) if y is not None else None for y in (x.lower, x.upper, x.step)))
    def e_Tuple(self, x, fr):
        out = []
        for y in x.elts:
            if isinstance(y, ast.Starred):
                it = self.iterate(self.eval(y.value, fr))
                if isinstance(it, SymIter):
                    if len(x.elts) > 1: raise OutOfSubset('starred in a tuple')
                    return VTuple(self.materialize(it))
                out += list(self.drain(it))
            else: out.append(self.eval(y, fr))
        return tuple(out)
    def e_List(self, x, fr):
        if any(isinstance(y, ast.Starred) for y in x.elts):
            l = self.e.vlist([])
            for y in x.elts:
                if isinstance(y, ast.Starred): self.extend(l, self.eval(y.value, fr))
                else: self.container_method(l, 'append', [self.eval(y, fr)], {})
            return l
        return self.e.vlist([self.eval(y, fr) for y in x.elts])
    def e_Set(self, x, fr):
        items = [self.eval(y, fr) for y in x.elts]
        if any(has_sym(i) for i in items): raise OutOfSubset('set of symbolic values')
        return set(items)
    def e_Dict(self, x, fr):
        d = VDict(); self.new(d)
        for k, v in zip(x.keys, x.values):
            if k is None:
                o = self.eval(v, fr)
                self.container_method(d, 'update', [o], {})
            else: 
                kk = self.eval(k, fr)
                self.setitem(d, kk, self.eval(v, fr))
        return d
    def e_BinOp(self, x, fr):
        a = self.eval(x.left, fr)
        return self.binop(BINOP[type(x.op)], a, self.eval(x.right, fr))
    def e_UnaryOp(self, x, fr):
        v = self.eval(x.operand, fr)
        if isinstance(v, Poison): poisoned(v)
        if isinstance(x.op, ast.Not):
            if isinstance(v, Sym) and not isinstance(v, (SType,)): return SBool(z3.simplify(z3.Not(zbool(v))))
            return not self.truth(v)
        if isinstance(v, SVal):
            return self.e.val_op({'USub': 'neg', 'UAdd': 'pos', 'Invert': 'invert'}[type(x.op).__name__], v)
        try:
            if isinstance(x.op, ast.USub): return -v
            if isinstance(x.op, ast.UAdd): return +v
            if is_sym(v): raise OutOfSubset('~')
            return ~v
        except (TypeError, AttributeError) as ex: raise PyExc(TypeError(str(ex)))
    def e_BoolOp(self, x, fr):
        isand = isinstance(x.op, ast.And)
        for y in x.values[:-1]:
            v = self.eval(y, fr)
            if self.truth(v) != isand: return v
        return self.eval(x.values[-1], fr)
    def e_IfExp(self, x, fr):
        return self.eval(x.body if self.truth(self.eval(x.test, fr)) else x.orelse, fr)
    CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
           ast.Is: operator.is_, ast.IsNot: operator.is_not}
    def e_Compare(self, x, fr):
        left = self.eval(x.left, fr)
        for i, (op, y) in enumerate(zip(x.ops, x.comparators)):
            right = self.eval(y, fr)
            if isinstance(op, ast.In): r = self.contains(right, left)
            elif isinstance(op, ast.NotIn):
                r = self.contains(right, left)
                r = neg(r) if isinstance(r, Sym) else not r
            else: r = self.compare(self.CMP[type(op)], left, right)
            if i == len(x.ops) - 1: return r
            if not self.truth(r): return r
            left = right
    def e_Lambda(self, x, fr): return self.make_func(x, fr, '<lambda>')
    def e_NamedExpr(self, x, fr):
        v = self.eval(x.value, fr); f = fr
        while f.depth == 10**6: f = f.parent
        self.assign_name(x.target.id, v, f); return v
    def e_JoinedStr(self, x, fr):
        out = ''
        for p in x.values:
            if isinstance(p, ast.Constant): s = p.value
            else:
                if p.format_spec is not None: raise OutOfSubset('format spec')
                v = self.eval(p.value, fr)
                s = self.e.py_repr(v) if p.conversion == 114 else self.to_str(v)
            out = self.binop(operator.add, out, s)
        return out
    def to_str(self, v):
        return MODELS[str](self, [v], {})
    def e_Yield(self, x, fr):
        v = self.eval(x.value, fr) if x.value else None
        f = fr
        self.container_method(f.yields, 'append', [v], {})
        return None
    def e_YieldFrom(self, x, fr):
        self.extend(fr.yields, self.eval(x.value, fr))
        return None
    def e_Starred(self, x, fr): raise OutOfSubset('starred expression')

    def e_GeneratorExp(self, x, fr): return GenExp(self, x, fr)
    def e_ListComp(self, x, fr):
        first = self.eval(x.generators[0].iter, fr)
        return self.comp_list(x, fr, first)
    def comp_list(self, x, fr, first):
        if len(x.generators) == 1:
            gen = x.generators[0]
            src = self.iterate(first)
            if isinstance(src, SymIter):
                if gen.ifs: return self.filtered(x, gen, src, fr)
                def elem(i):
                    f = self.comp_frame(fr)
                    self.bind_target(gen.target, src.elem(i), f)
                    return self.eval(x.elt, f)
                return self.e.symlist(self.materialize(SymIter(src.n, elem), key=x))
            first = src
        out = self.e.vlist([])
        def rec(i, f):
            if i == len(x.generators):
                list.append(out, self.eval(x.elt, f)); return
            g = x.generators[i]
            it = first if i == 0 else self.iterate(self.eval(g.iter, f))
            it = self.iterate(it) if i == 0 and not hasattr(it, '__next__') else it
            if isinstance(it, SymIter): raise OutOfSubset('nested comprehension over a symbolic sequence')
            for v in self.drain(it):
                f2 = self.comp_frame(f)
                self.bind_target(g.target, v, f2)
                if all(self.truth(self.eval(c, f2)) for c in g.ifs): rec(i + 1, f2)
        rec(0, fr)
        return out
    def e_SetComp(self, x, fr):
        l = self.comp_list(x, fr, self.eval(x.generators[0].iter, fr))
        return MODELS[set](self, [l], {})
    def e_DictComp(self, x, fr):
        gen = x.generators[0]
        if len(x.generators) > 1: raise OutOfSubset('nested dict comprehension')
        it = self.iterate(self.eval(gen.iter, fr))
        d = VDict(); self.new(d)
        def put(v, f):
            self.bind_target(gen.target, v, f)
            if all(self.truth(self.eval(c, f)) for c in gen.ifs):
                k = self.eval(x.key, f)
                self.setitem(d, k, self.eval(x.value, f))
        if isinstance(it, SymIter):
            f = self.comp_frame(fr)
            def body(k): put(it.elem(k), f); return 'next'
            self.cut(x, it.n, body)
            return d
        for v in self.drain(it): put(v, self.comp_frame(fr))
        return d

    def e_Call(self, x, fr):
        if isinstance(x.func, ast.Name) and x.func.id == 'super' and 'super' not in fr.vars:
            args = [self.eval(a, fr) for a in x.args]
            f = fr
            while f.depth == 10**6: f = f.parent
            if not args:
                cls = f.closure['__class__'].cell_contents; obj = f.vars[f.first_arg]
            else: cls, obj = args
            return SuperProxy(self, cls, obj)
        if isinstance(x.func, ast.Name) and x.func.id == 'locals': raise OutOfSubset('locals()')
        fn = self.eval(x.func, fr)
        args, kwargs = [], {}
        for a in x.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                it = self.iterate(v)
                if isinstance(it, SymIter): args.append(StarSym(self.materialize(it, v, key=a)))
                else: args += list(self.drain(it))
            else: args.append(self.eval(a, fr))
        for k in x.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if isinstance(d, VDict) and d.term is not None:
                    kwargs['**'] = d; continue
                if isinstance(d, Sym): raise OutOfSubset('** of a symbolic value')
                for kk, vv in dict.items(d):
                    if is_sym(kk): kwargs['**'] = d; break
                    kwargs[kk] = vv
            else: kwargs[k.arg] = self.eval(k.value, fr)
        for a in args:
            if isinstance(a, Poison): poisoned(a)
        self.e.site = (fr.name, x.lineno, x.col_offset, len(self.stack))
        if any(isinstance(a, StarSym) for a in args) and not self.accepts_star(fn):
            raise OutOfSubset('symbolic star arguments of %s' % fn)
        if '**' in kwargs and not isinstance(fn, Stub): raise OutOfSubset('symbolic keyword arguments')
        return self.call(fn, args, kwargs)

    def accepts_star(self, fn):
        if isinstance(fn, (Stub, IFunc)): return True
        if isinstance(fn, SVal): return True
        if isinstance(fn, types.MethodType): fn = fn.__func__
        if isinstance(fn, type) and in_scope_class(fn): return True
        if in_scope(fn): return True
        return _hashable(fn) and fn in STAR_MODELS


class StarSym:
    "A symbolic sequence of positional arguments."
    def __init__(self, seq): self.seq = seq

class SuperProxy:
    def __init__(self, interp, cls, obj): self.interp, self.cls, self.obj = interp, cls, obj
    def get(self, name):
        v = getattr(super(self.cls, self.obj), name)
        return v

class SymExc(Exception):
    "Exception of unknown class raised by a stub."
    def __init__(self, label, index=None, cls_term=None): self.label, self.index = label, index

def op_match(exc, cls):
    "an error of an operation of an arbitrary value: some Exception, otherwise unknown"
    if isinstance(cls, tuple):
        rs = [op_match(exc, c) for c in cls]
        if any(r is True for r in rs): return True
        rs = [r.t for r in rs if r is not False]
        return SBool(z3.Or(*rs)) if rs else False
    if issubclass(Exception, cls): return True
    if not issubclass(cls, Exception): return False
    f = z3.Function('opexc_%s_%d_%s' % (exc.op, len(exc.opargs), cls.__name__), *([V] * len(exc.opargs) + [BOOL]))
    return SBool(f(*exc.opargs))

def prepend(items, seq):
    m = len(items)
    if m == 0: return seq
    def elem(i):
        i = z3.simplify(i)
        if z3.is_int_value(i):
            j = i.as_long()
            return items[j] if j < m else seq.at(z3.IntVal(j - m))
        e = E()
        r = seq.at(z3.simplify(i - m))
        for j in reversed(range(m)): r = e.ite(i == j, items[j], r)
        return r
    s = SSeq(z3.simplify(seq.n + m), elem)
    s.parts = (items, seq)
    return s

def conc_seq(obj):
    items = list(list.__iter__(obj)) if isinstance(obj, list) else list(obj)
    def elem(i):
        i = z3.simplify(i)
        if z3.is_int_value(i):
            if not 0 <= i.as_long() < len(items): raise PathEnd()
            return items[i.as_long()]
        if not items: raise PathEnd()
        r = items[-1]
        for j in reversed(range(len(items) - 1)): r = E().ite(i == j, items[j], r)
        return r
    return SSeq(z3.IntVal(len(items)), elem)

def cat_seqs(seqs):
    "concatenation of SSeqs"
    bounds, n = [], z3.IntVal(0)
    for s in seqs:
        bounds.append(n); n = z3.simplify(n + s.n)
    def elem(i):
        i = z3.simplify(i)
        e = E()
        for j in reversed(range(len(seqs))):
            if j == 0: return seqs[0].at(i)
            c = z3.simplify(i >= bounds[j])
            L = e.local_decisions
            conds = L['conds'] if L else []
            if z3.is_false(c): continue
            if z3.is_true(c) or e._check(*(conds + [z3.Not(c)])) == z3.unsat: return seqs[j].at(z3.simplify(i - bounds[j]))
            if e._check(*(conds + [c])) == z3.unsat: continue
            if e.branch(c): return seqs[j].at(z3.simplify(i - bounds[j]))
    class CatSeq(SSeq):
        def at(s, i): return elem(i)
    r = CatSeq(n, elem)
    r.catparts = seqs
    return r

def seq_slice(e, seq, s):
    n = seq.n
    step = s.step if s.step is not None else 1
    if not isinstance(step, int) or isinstance(step, bool) or step == 0: raise OutOfSubset('symbolic slice step')
    if isinstance(getattr(seq, 'interleave', None), tuple):
        r = interleave_slice(e, seq, s)
        if r is not None: return r
    def norm(x, d):
        if x is None: return d
        z = zint(x)
        if z is None: raise OutOfSubset('slice bound')
        if z3.is_int_value(z3.simplify(z)):
            v = z3.simplify(z).as_long()
            if v >= 0:
                # avoid a conditional when the bound is known to be within the length
                if not e.feasible(n < v): return z3.IntVal(v)
            elif not e.feasible(n < -v): return z3.simplify(n + v)
        elif not e.feasible(z3.Not(z3.And(z >= 0, z <= n))): return z
        return z3.If(z < 0, z3.If(z + n < 0, 0, z + n), z3.If(z > n, n, z))
    if step == -1 and s.start is None and s.stop is None:
        return SSeq(n, lambda i: seq.at(z3.simplify(n - 1 - i)))
    if step < 0: raise OutOfSubset('negative slice step')
    a, b = norm(s.start, z3.IntVal(0)), norm(s.stop, n)
    m = z3.simplify(z3.If(b > a, (b - a + (step - 1)) / step if step > 1 else b - a, 0))
    if step == 1 and not e.feasible(b < a): m = z3.simplify(b - a)
    if isinstance(seq, ZSeq) and step == 1: return ZSeq(z3.simplify(z3.Extract(seq.term, a, m)))
    return SSeq(m, lambda i: seq.at(z3.simplify(a + step * i)))

def interleave(e, a, b, n):
    "a[0], b[0], a[1], b[1], ..., a[n-1]  (n elements of a, n-1 elements of b)"
    n = n if z3.is_expr(n) else z3.IntVal(n)
    def elem(i):
        i = z3.simplify(i)
        if z3.is_int_value(i):
            j = i.as_long()
            return (b if j % 2 else a)(z3.IntVal(j // 2))
        for cand, fn in ((0, a), (1, b)):
            if not e.feasible(i % 2 != cand): return fn(z3.simplify((i - cand) / 2))
        raise OutOfSubset('element of an interleaved sequence at an unknown position')
    s = SSeq(z3.simplify(2 * n - 1), elem)
    s.interleave = (a, b, n, 0)
    return s

def interleave_slice(e, seq, s):
    a, b, n, off = seq.interleave          # seq = (a0 b0 a1 b1 ... a[n-1]) with the first `off` elements dropped
    if s.step not in (None, 1, 2, -1) or not (s.start is None or isinstance(s.start, int)): return None
    st = s.start or 0
    if st < 0: return None
    if s.step == -1: return None
    if s.stop is not None:
        # [..:-1] of the whole
        return None
    pos = off + st
    tot = 2 * n - 1
    if e.feasible(tot < pos): return None
    if s.step in (None, 1):
        def elem(i):
            return interleave(e, a, b, n).elem(z3.simplify(i + pos))
        r = SSeq(z3.simplify(tot - pos), elem)
        r.interleave = (a, b, n, pos)
        return r
    if pos % 2 == 0: return SSeq(z3.simplify(n - pos // 2), lambda i: a(z3.simplify(i + pos // 2)))
    return SSeq(z3.simplify(n - 1 - pos // 2), lambda i: b(z3.simplify(i + pos // 2)))

SSeqTypes = (SSeq, VTuple, SymIter)

def dhas(d, k):
    if d.sort() == MAP: return z3.Select(d, k) != ABSENT
    if z3.is_app(d) and d.decl().name() == 'd_set':
        return z3.Or(d.arg(1) == k, dhas(d.arg(0), k))
    if d.eq(d_empty): return z3.BoolVal(False)
    if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_ITE: return z3.If(d.arg(0), dhas(d.arg(1), k), dhas(d.arg(2), k))
    return d_has(d, k)

def dget(d, k):
    if d.sort() == MAP: return z3.simplify(z3.Select(d, k))
    if z3.is_app(d) and d.decl().name() == 'd_set':
        return z3.simplify(z3.If(d.arg(1) == k, d.arg(2), dget(d.arg(0), k)))
    if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_ITE: return z3.If(d.arg(0), dget(d.arg(1), k), dget(d.arg(2), k))
    return d_get(d, k)

def _vterm(x):
    d = getattr(x, '__dict__', None)
    return d.get('_vterm') if type(d) is dict else None
def _plain_object(x): return type(x).__eq__ is object.__eq__ and type(getattr(x, '__dict__', None)) is dict

def _hashable(x):
    try: hash(x); return True
    except BaseException: return False

def _custom(x):
    return not isinstance(x, (str, int, float, bool, type(None), bytes, type, tuple, list, dict, set))

def _mro_get(cls, name):
    for c in getattr(cls, '__mro__', ()):
        if name in c.__dict__: 
            v = c.__dict__[name]
            if isinstance(v, staticmethod): return v.__func__
            return v
    return None

class StrMethod:
    "Bound method of a (symbolic or concrete) string."
    NAMES = 'replace startswith endswith join lower upper strip lstrip rstrip split rsplit splitlines count isspace find rfind format encode isidentifier isascii partition rpartition'.split()
    def __new__(cls, interp, s, name):
        if name == '__class__': return str
        if not hasattr(str, name): raise PyExc(AttributeError("'str' object has no attribute '%s'" % name))
        def call(*args, **kwargs):
            if name == 'join': return interp.join(s, args[0])
            if isinstance(s, str) and not any(has_sym(a) for a in args):
                try: r = getattr(s, name)(*args, **kwargs)
                except Exception as ex: raise PyExc(ex)
                return interp.e.vlist(r) if type(r) is list else r
            x = SStr(zstr(s)) if isinstance(s, str) else s
            if name not in ('replace', 'startswith', 'endswith', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'rsplit', 'count', 'split', 'splitlines', 'rpartition', 'rfind'):
                raise OutOfSubset('str.%s of a symbolic string' % name)
            if name == 'split' and not isinstance(x, SLines): return interp.split(x, *args, **kwargs)
            if name == 'splitlines' and not isinstance(x, SLines) and not args and not kwargs: return interp.splitlines(x)
            try: return getattr(x, name)(*args, **kwargs)
            except z3.Z3Exception: raise OutOfSubset('str.%s' % name)
        return BoundI(call)

def _join(self, sep, seq):
    e = self.e
    it = self.iterate(seq)
    if not isinstance(it, SymIter):
        items = list(self.drain(it))
        for x in items:
            if not isinstance(x, (str, SStr)):
                if isinstance(x, SVal):
                    if not e.branch(V.is_s(x.t)): raise PyExc(TypeError('sequence item: expected str instance'))
                else: raise PyExc(TypeError('sequence item: expected str instance, %s found' % type(x).__name__))
        items = [SStr(V.sv(x.t)) if isinstance(x, SVal) else x for x in items]
        if not any(is_sym(x) for x in items) and isinstance(sep, str): return sep.join(items)
        r = ''
        for i, x in enumerate(items): r = self.binop(operator.add, self.binop(operator.add, r, sep) if i else r, x)
        return r
    if sep == '\n' and it.pure and it.src is not None:
        i = e.fresh('int', 'i')
        probe = None
        if not z3.is_int_value(z3.simplify(it.n)) and entails(it.n >= 1):
            x = e.pure_eval(lambda: it.elem(i))
            if isinstance(x, (str, SStr)) and nlfree(zstr(x)): return SLines(it.src)
    if sep == '' and it.chars is not None:
        try: return charmap(e, it)
        except OutOfSubset: pass
    if isinstance(sep, str) and isinstance(it.src, ZSeq):
        t = it.src.term
        joinz(sep, t)
        if entails(allstr(t)): return SStr(joinz(sep, t))
    # symbolic: accumulate through an inductive loop
    def piece(k):
        x = it.elem(k)
        if isinstance(x, SVal):
            if not e.branch(V.is_s(x.t)): raise PyExc(TypeError('sequence item: expected str instance'))
            x = SStr(V.sv(x.t))
        if not isinstance(x, (str, SStr)): raise PyExc(TypeError('sequence item: expected str instance'))
        return x
    if e.pure:
        raise OutOfSubset('join of a symbolic sequence in pure mode')
    acc = Cell(''); e.register(acc)
    nonempty = not (isinstance(sep, str) and sep == '')
    def body(k):
        x = piece(k)
        cur = acc.__dict__['v']
        if nonempty:
            k_ = z3.simplify(k)
            pre = e.ite(k_ == 0, cur, self.binop(operator.add, cur, sep)) if not (z3.is_int_value(k_) and k_.as_long() == 0) else cur
        else: pre = cur
        acc.__dict__['v'] = self.binop(operator.add, pre, x)
        e.note_write(('attr', e.oids[id(acc)], 'v'))
        return 'next'
    self.cut(seq.node if isinstance(seq, GenExp) else self.cur, it.n, body)
    return acc.__dict__['v']
Interp.join = _join

def charmap(e, it):
    """''.join(f(c) for c in string): f is identified by its result on an arbitrary character, so that the same function applied
    to the same string gives the same result."""
    t, fn = it.chars
    x = e.pure_eval(lambda: fn(SStr(z3.Const('ch?', STR))))
    if isinstance(x, SVal): raise OutOfSubset('map of characters')
    return charmap_apply(e, z3.simplify(zstr(x)), t)
def charmap_apply(e, r, t):
    f = z3.Function('charmap_' + r.sexpr(), STR, STR)
    y = f(t)
    e._cut_used = True
    e.axiom(z3.Implies(t == z3.StringVal(''), y == z3.StringVal('')))
    if one_char(r): e.axiom(z3.Length(y) == z3.Length(t))
    return SStr(y)
def one_char(r):
    if z3.is_string_value(r): return len(core.pystr(r)) == 1
    if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_ITE: return one_char(r.arg(1)) and one_char(r.arg(2))
    return False
def str_rev(t):
    if t.decl().name() == 'str_rev': return t.arg(0)
    r = z3.Function('str_rev', STR, STR)(t)
    E().axiom(z3.Length(r) == z3.Length(t))
    return r

def allstr(t):
    "all elements of a sequence of values are strings"
    f = z3.Function('allstr', SEQ, BOOL)
    e = E(); r = f(t)
    n = z3.Length(t)
    if not known(('allstr', t.get_id()), t):
        e.axiom(z3.Implies(n == 0, r))
        e.axiom(z3.Implies(z3.And(r, n >= 1), V.is_s(t[n - 1])))
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            parts = [V.is_s(c.arg(0)) if c.decl().kind() == z3.Z3_OP_SEQ_UNIT else allstr(c) for c in t.children()]
            e.axiom(r == z3.And(*parts))
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_UNIT: e.axiom(r == V.is_s(t.arg(0)))
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT: e.axiom(z3.Implies(allstr(t.arg(0)), r))
        elif z3.is_app_of(t, z3.Z3_OP_ITE): e.axiom(r == z3.If(t.arg(0), allstr(t.arg(1)), allstr(t.arg(2))))
    return r
def flat_concat(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT: return [x for c in t.children() for x in flat_concat(c)]
    return [t]
def known(key, t):
    d = E().__dict__.setdefault('_known_terms', {})
    new = key not in d
    d[key] = t
    return not new
def joinz(sep, t):
    "sep.join(t) for a sequence of strings: unfolded along appended elements"
    f = z3.Function('join_' + '_'.join(str(ord(c)) for c in sep), SEQ, STR)
    e = E(); r = f(t)
    n = z3.Length(t)
    S = z3.StringVal('')
    zsep = zlit(sep) if sep else S
    if known(('join', sep, t.get_id()), t): return r
    e.axiom(z3.Implies(n == 0, r == S))
    parts = flat_concat(t)
    if len(parts) > 1 and parts[-1].decl().kind() == z3.Z3_OP_SEQ_UNIT:
        head = parts[:-1]
        head = head[0] if len(head) == 1 else z3.Concat(*head)
        x = V.sv(parts[-1].arg(0))
        e.axiom(r == z3.If(z3.Length(head) == 0, x, z3.Concat(joinz(sep, head), zsep, x)))
    elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_UNIT: e.axiom(r == V.sv(t.arg(0)))
    elif z3.is_app_of(t, z3.Z3_OP_ITE): e.axiom(r == z3.If(t.arg(0), joinz(sep, t.arg(1)), joinz(sep, t.arg(2))))
    elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        base, a, m = t.children()
        if True:
            last = V.sv(base[z3.Length(base) - 1])
            e.axiom(z3.Implies(z3.And(a == 0, m == z3.Length(base) - 1, z3.Length(base) >= 1), joinz(sep, base) == z3.If(z3.Length(base) == 1, last, z3.Concat(r, zsep, last))))
    return r

class Cell:
    def __init__(self, v): self.v = v

def _split(self, x, sep=None, maxsplit=-1):
    raise OutOfSubset('str.split of a symbolic string')
Interp.split = _split

def _splitlines(self, x):
    "some number of strings, functions of the text"
    self.e._cut_used = True
    n = z3.Function('splitlines_len', STR, INT)(x.t); self.e.axiom(n >= 0)
    f = z3.Function('splitlines_item', STR, INT, STR)
    return self.e.symlist(SSeq(n, lambda i: SStr(f(x.t, i))))
Interp.splitlines = _splitlines

# ---------------------------------------------------------------------------------------------------- models of builtins

MODELS = {}
STAR_MODELS = {itertools.chain, zip}
def model(*fns):
    def deco(f):
        for x in fns: MODELS[x] = f
        return f
    return deco

@model(isinstance)
def _(I, args, kw):
    x, cls = args
    return inst(I, x, cls)

def inst(I, x, cls):
    if isinstance(cls, tuple):
        rs = [inst(I, x, c) for c in cls]
        if any(r is True for r in rs): return True
        rs = [r for r in rs if r is not False]
        return SBool(z3.Or(*[r.t for r in rs])) if rs else False
    if isinstance(x, Poison): poisoned(x)
    if isinstance(x, SymExc): return x.match(I.e, cls)
    if isinstance(x, OpError): return op_match(x, cls)
    if isinstance(x, SStr): return issubclass(str, cls)
    if isinstance(x, SBool): return issubclass(bool, cls)
    if isinstance(x, SInt): return issubclass(int, cls)
    if isinstance(x, VTuple): return issubclass(tuple, cls)
    if isinstance(x, SymIter) or isinstance(x, (GenExp, GenCall)): return cls in (types.GeneratorType, object)
    if isinstance(x, (IFunc, Stub, BoundI)): return cls in (types.FunctionType, object)
    if isinstance(x, SVal):
        if cls is object: return True
        f = z3.Function('inst_%s_%s' % (cls.__module__, cls.__qualname__), V, BOOL)
        t = x.t
        prim = []
        for c, rec in ((str, V.is_s), (bool, V.is_b), (int, V.is_i)):
            prim.append((issubclass(c, cls), rec(t)))
        cond = f(t)
        r = z3.If(t == V.none, issubclass(type(None), cls), z3.If(V.is_s(t), issubclass(str, cls), z3.If(V.is_b(t), issubclass(bool, cls),
            z3.If(V.is_i(t), issubclass(int, cls), cond))))
        I.e.inst_used = getattr(I.e, 'inst_used', {})
        # facts about subclasses and disjoint classes among those asked about
        key = t.get_id()
        for (c2, f2) in I.e.inst_used.setdefault(key, []):
            if issubclass(cls, c2): I.e.axiom(z3.Implies(f(t), f2(t)))
            elif issubclass(c2, cls): I.e.axiom(z3.Implies(f2(t), f(t)))
            elif disjoint(cls, c2): I.e.axiom(z3.Not(z3.And(f(t), f2(t))))
        I.e.inst_used[key].append((cls, f))
        I.e.keep.append(t)
        return SBool(z3.simplify(r))
    if isinstance(x, SType): raise OutOfSubset('isinstance of a type')
    if isinstance(x, VSet): return issubclass(set, cls)
    cl = getattr(x, '__dict__', {}).get('_isinstance') if hasattr(x, '__dict__') else None
    if cl is not None: return cl(cls)
    return isinstance(x, cls)

def disjoint(a, b):
    "Classes that cannot have common instances (layout conflict among builtins, or unrelated program classes: assumed)."
    try:
        type('x', (a, b), {})
        ok = True
    except TypeError: ok = False
    if not ok: return True
    E().assumptions.add('no object is an instance of two unrelated classes that the code distinguishes by isinstance')
    return True

@model(len)
def _(I, args, kw): return I.length(args[0])

@model(bool)
def _(I, args, kw):
    if not args: return False
    x = args[0]
    if isinstance(x, Sym) and not isinstance(x, SType): return SBool(z3.simplify(zbool(x)))
    return I.truth(x)

@model(str)
def _(I, args, kw):
    if not args: return ''
    x = args[0]
    if isinstance(x, Poison): poisoned(x)
    if isinstance(x, (str, SStr)): return x
    if is_sym(x) or has_sym(x): return I.e.py_str(x)
    if _custom(x) or isinstance(x, (list, tuple, dict)):
        s = _mro_get(type(x), '__str__')
        if in_scope(s) and not isinstance(x, BaseException): return I.call(s, [x])
        if not _custom(x): 
            try: return str(x)
            except Exception as ex: raise PyExc(ex)
        return I.e.py_str(x)
    return str(x)

@model(repr)
def _(I, args, kw): return I.e.py_repr(args[0])

@model(type)
def _(I, args, kw):
    x = args[0]
    if isinstance(x, SStr): return str
    if isinstance(x, SBool): return bool
    if isinstance(x, SInt): return int
    if isinstance(x, SVal): return SType(x.t)
    if isinstance(x, VTuple): return tuple
    if isinstance(x, VList): return list
    if isinstance(x, VSet): return set
    if isinstance(x, VDict): return dict
    if isinstance(x, (SymExc, OpError)): raise OutOfSubset('type of an arbitrary exception')
    return type(x)

@model(int)
def _(I, args, kw):
    x = args[0] if args else 0
    if isinstance(x, SInt): return x
    if isinstance(x, SBool): return x.asint()
    if is_sym(x): raise OutOfSubset('int() of a symbolic value')
    return I.native(int, args, kw)

@model(range)
def _(I, args, kw):
    if not any(is_sym(a) for a in args): return I.native(range, args, kw)
    a = [zint(x) for x in args]
    if any(x is None for x in a): raise OutOfSubset('range of symbolic values')
    lo, hi, st = (z3.IntVal(0), a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else (a[0], a[1], args[2])
    if type(st) is not int: raise OutOfSubset('symbolic range step')
    if st == 0: raise PyExc(ValueError('range() arg 3 must not be zero'))
    n = (hi - lo + (st - 1)) / st if st > 0 else (lo - hi + (-st - 1)) / (-st)
    n = z3.simplify(z3.If(n > 0, n, 0))
    return SSeq(n, lambda i: SInt(z3.simplify(lo + st * i)))

@model(enumerate)
def _(I, args, kw):
    start = kw.get('start', args[1] if len(args) > 1 else 0)
    it = I.iterate(args[0])
    if isinstance(it, SymIter):
        return SymIter(it.n, lambda i: (wrapint(zint(start) + i), it.elem(i)), pure=it.pure)
    return enumerate(I.drain(it), start)

def wrapint(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else SInt(t)

@model(zip)
def _(I, args, kw):
    if any(isinstance(a, StarSym) for a in args): raise OutOfSubset('zip(*symbolic)')
    its = [I.iterate(a) for a in args]
    if not any(isinstance(i, SymIter) for i in its): return zip(*[I.drain(i) for i in its])
    syms = []
    for i, a in zip(its, args):
        if isinstance(i, SymIter): syms.append(i)
        else:
            s = conc_seq(list(I.drain(i))); syms.append(SymIter(s.n, s.at, pure=True))
    if any(not s.pure for s in syms) and len(syms) > 1: raise OutOfSubset('zip over effectful iterators')
    fin = [s for s in syms if not getattr(s, 'inf', False)]
    n = fin[0].n if fin else syms[0].n
    for s in fin[1:]:
        if not I.e.feasible(s.n != n): continue
        n = z3.simplify(z3.If(s.n < n, s.n, n))
    r = SymIter(n, lambda i: tuple(s.elem(i) for s in syms), pure=True)
    if not fin: r.inf = True
    return r

@model(itertools.cycle)
def _(I, args, kw):
    it = I.iterate(args[0])
    if not isinstance(it, SymIter): 
        l = list(I.drain(it)); s = conc_seq(l)
    else: s = I.materialize(it, args[0])
    if not I.e.branch(s.n > 0): return iter(())
    r = SymIter(I.e.fresh('int', 'inf'), lambda i: s.at(z3.simplify(i % s.n)), pure=True)
    r.inf = True
    return r

@model(itertools.islice)
def _(I, args, kw):
    it = I.iterate(args[0])
    if len(args) != 2: raise OutOfSubset('islice')
    n = args[1]
    if n is None: return it
    z = zint(n)
    if z is None: raise OutOfSubset('islice')
    if I.e.branch(z < 0): raise PyExc(ValueError('Stop argument for islice() must be None or an integer: 0 <= x <= sys.maxsize.'))
    if not isinstance(it, SymIter):
        if not is_sym(n): return itertools.islice(it, n)
        it = SymIter(*(lambda s: (s.n, s.at))(conc_seq(list(I.drain(it)))), pure=True)
    if not it.pure: raise OutOfSubset('islice of an effectful iterator')
    return SymIter(z if getattr(it, 'inf', False) else z3.simplify(z3.If(it.n < z, it.n, z)), it.elem, pure=True)

@model(map)
def _(I, args, kw):
    f, its = args[0], [I.iterate(a) for a in args[1:]]
    if any(isinstance(i, SymIter) for i in its):
        if len(its) > 1: raise OutOfSubset('map over several symbolic iterables')
        it = its[0]
        return SymIter(it.n, lambda i: I.call(f, [it.elem(i)]))
    return (I.call(f, list(a)) for a in zip(*[I.drain(i) for i in its]))

@model(filter)
def _(I, args, kw):
    f, it = args[0], I.iterate(args[1])
    test = (lambda v: I.truth(v)) if f is None else (lambda v: I.truth(I.call(f, [v])))
    if isinstance(it, SymIter):
        acc = VList(); I.new(acc)
        def body(k):
            v = it.elem(k)
            if test(v): I.container_method(acc, 'append', [v], {})
            return 'next'
        I.cut(I.cur, it.n, body)
        return acc
    return (v for v in I.drain(it) if test(v))

@model(list)
def _(I, args, kw): return I.to_list(args[0]) if args else I.e.vlist([])

@model(tuple)
def _(I, args, kw):
    if not args: return ()
    x = args[0]
    it = I.iterate(x)
    if isinstance(it, SymIter): return VTuple(I.materialize(it, x))
    return tuple(I.drain(it))

@model(dict)
def _(I, args, kw):
    d = VDict(); I.new(d)
    if args:
        x = args[0]
        if isinstance(x, VDict) and x.term is not None: d.term = x.term
        elif isinstance(x, dict):
            for k, v in dict.items(x): I.setitem(d, k, v)
        else:
            it = I.iterate(x)
            if isinstance(it, SymIter):
                def body(k):
                    p = it.elem(k)
                    if not (isinstance(p, tuple) and len(p) == 2): raise OutOfSubset('dict() of unknown pairs')
                    I.setitem(d, p[0], p[1]); return 'next'
                I.cut(I.cur, it.n, body)
            else:
                for p in I.drain(it):
                    k, v = list(I.drain(I.iterate(p)))
                    I.setitem(d, k, v)
    for k, v in kw.items(): I.setitem(d, k, v)
    return d

@model(set, frozenset)
def _(I, args, kw):
    if not args: return I.new(VSet())
    x = args[0]
    if isinstance(x, SStr): return CharSet(x)
    it = I.iterate(x)
    if isinstance(it, SymIter):
        s = I.materialize(it, x)
        return SSet(I.e.zseq(I.e.symlist(s)))
    items = list(I.drain(it))
    if any(has_sym(i) for i in items): return SSet(I.e.zseq(I.e.vlist(items)))
    return set(items)

class MatchStub:
    def __getattr__(self, n):
        if n[:2] == '__': raise AttributeError(n)
        raise OutOfSubset('match object')

class CharSet:
    "the set of the characters of a text, or those of them that are in a given set"
    def __init__(self, text, among=None): self.text, self.among = text, among
    def __rand__(self, o):
        if not isinstance(o, (set, frozenset)) or any(type(x) is not str for x in o): raise OutOfSubset('intersection with the characters of a text')
        return CharSet(self.text, set(o) if self.among is None else self.among & o)
    __and__ = __rand__
    def intersection(self, o): return self & set(o)
    def isdisjoint(self, o): return not (self & set(o))
    def __contains__(self, x):
        if type(x) is not str or len(x) != 1: raise OutOfSubset('containment in a set of characters')
        return (self.among is None or x in self.among) and E().branch(z3.Contains(zstr(self.text), z3.StringVal(x)))
    def __bool__(self):
        if self.among is None: return E().branch(z3.Length(zstr(self.text)) > 0)
        return E().branch(z3.Or(False, *[z3.Contains(zstr(self.text), z3.StringVal(x)) for x in sorted(self.among)]))
    def __iter__(self): raise OutOfSubset('iteration over the characters of a text')
    def __len__(self): raise OutOfSubset('number of different characters of a text')

class SSet(Sym):
    "set(sequence): known only by the sequence it was made from"
    __slots__ = ()
    __hash__ = Sym.__hash__

_to_V0 = core.to_V
def _to_V(x):
    if isinstance(x, SSet): return z3.Function('set_of', SEQ, V)(x.t)
    return _to_V0(x)
core.to_V = _to_V
to_V = _to_V
import vc.engine as _eng
_eng.to_V = _to_V

@model(reversed)
def _(I, args, kw):
    x = args[0]
    if isinstance(x, (SymIter, GenExp, GenCall)): raise PyExc(TypeError('not reversible'))
    it = I.iterate(x)
    if isinstance(it, SymIter): return SymIter(it.n, lambda i: it.elem(z3.simplify(it.n - 1 - i)), pure=True, chars=(str_rev(it.chars[0]), it.chars[1]) if it.chars is not None and it.pure else None)
    return iter(list(I.drain(it))[::-1])

@model(sum)
def _(I, args, kw):
    it = I.iterate(args[0])
    if isinstance(it, SymIter): raise OutOfSubset('sum over a symbolic sequence')
    r = args[1] if len(args) > 1 else 0
    for v in I.drain(it): r = I.binop(operator.add, r, v)
    return r

def _anyall(name):
    def f(I, args, kw):
        it = I.iterate(args[0])
        want = (name == 'any')
        if isinstance(it, SymIter):
            acc = Cell(not want); I.e.register(acc)
            class Found(BaseException): pass
            def body(k):
                if I.truth(it.elem(k)) == want: return 'break'
                return 'next'
            r = I.cut(args[0].node if isinstance(args[0], GenExp) else I.cur, it.n, body)
            return want if r == 'break' else not want
        for v in I.drain(it):
            if I.truth(v) == want: return want
        return not want
    return f
MODELS[any] = _anyall('any'); MODELS[all] = _anyall('all')

def _minmax(name):
    def f(I, args, kw):
        if kw: raise OutOfSubset(name)
        items = list(args) if len(args) > 1 else None
        if items is None:
            it = I.iterate(args[0])
            if isinstance(it, SymIter): raise OutOfSubset('%s of a symbolic sequence' % name)
            items = list(I.drain(it))
        if not items: raise PyExc(ValueError('empty sequence'))
        r = items[0]
        for x in items[1:]:
            c = I.compare(operator.lt if name == 'min' else operator.gt, x, r)
            if isinstance(c, SBool): r = I.e.ite(c.t, x, r)
            elif I.truth(c): r = x
        return r
    return f
MODELS[min] = _minmax('min'); MODELS[max] = _minmax('max')

@model(getattr)
def _(I, args, kw):
    try: return I.getattr(args[0], args[1])
    except PyExc as ex:
        if len(args) > 2 and isinstance(ex.exc, AttributeError): return args[2]
        raise

@model(setattr)
def _(I, args, kw): return I.setattr(*args)

@model(hasattr)
def _(I, args, kw):
    if type(args[1]) is str and args[1][:2] == '__' == args[1][-2:] and not is_sym(args[0]) and not hasattr(type(args[0]), args[1]) and args[1] not in getattr(args[0], '__dict__', {}) and _mro_get(type(args[0]), '__getattr__') is None: return False
    try: I.getattr(args[0], args[1]); return True
    except PyExc: return False

@model(callable)
def _(I, args, kw):
    if isinstance(args[0], (IFunc, Stub)): return True
    if is_sym(args[0]): return SBool(z3.Function('callable', V, BOOL)(to_V(args[0])))
    return callable(args[0])

@model(iter)
def _(I, args, kw):
    it = I.iterate(args[0])
    return it

@model(next)
def _(I, args, kw):
    it = args[0]
    if hasattr(it, '__next__') and not is_sym(it):
        try: return next(it)
        except StopIteration as ex:
            if len(args) > 1: return args[1]
            raise PyExc(ex)
    raise OutOfSubset('next() of a symbolic iterator')

@model(id)
def _(I, args, kw): raise OutOfSubset('id()')
@model(hash)
def _(I, args, kw): raise OutOfSubset('hash()')
@model(print)
def _(I, args, kw): return None
@model(ord)
def _(I, args, kw):
    if isinstance(args[0], SStr): return SInt(z3.StrToCode(args[0].t))
    return I.native(ord, args, kw)
@model(chr)
def _(I, args, kw):
    if isinstance(args[0], SInt):
        c = args[0].t
        if not I.e.branch(z3.And(c >= 0, c <= 0x10ffff)): raise PyExc(ValueError('chr() arg not in range(0x110000)'))
        t = z3.Function('chr', INT, STR)(c)
        I.e.axiom(z3.And(z3.Length(t) == 1, z3.Function('code', STR, INT)(t) == c, z3.Implies(c <= 0x2ffff, t == z3.StrFromCode(c))))
        return SStr(t)
    return I.native(chr, args, kw)
@model(abs)
def _(I, args, kw): return abs(args[0])
@model(slice)
def _(I, args, kw):
    if any(isinstance(a, StarSym) for a in args): raise OutOfSubset('slice(*symbolic)')
    return slice(*args)

@model(copy_mod.copy)
def _(I, args, kw):
    x = args[0]
    if isinstance(x, (VList, list)) : return I.to_list(x) if type(x) in (VList, list) else I.native(copy_mod.copy, args, kw)
    if isinstance(x, dict): return MODELS[dict](I, [x], {})
    if isinstance(x, (tuple, str, int, type(None), Sym, VTuple)): return x
    if in_scope_class(type(x)) or '_copyable' in getattr(x, '__dict__', {}):
        d = type(x).__new__(type(x)); d.__dict__.update(x.__dict__)
        return I.new(d)
    return I.native(copy_mod.copy, args, kw)

@model(itertools.chain)
def _(I, args, kw):
    if len(args) == 1 and isinstance(args[0], StarSym):
        s = args[0].seq
        acc = VList(); I.new(acc)
        def body(k):
            I.extend(acc, s.at(k)); return 'next'
        I.cut(I.cur, s.n, body)
        return acc
    its = [I.iterate(a) for a in args]
    if any(isinstance(i, SymIter) for i in its):
        acc = I.e.vlist([])
        for a in args: I.extend(acc, a)
        return acc
    return itertools.chain(*[I.drain(i) for i in its])
STAR_MODELS.add(itertools.chain)

@model(itertools.chain.from_iterable)
def _(I, args, kw):
    it = I.iterate(args[0])
    if isinstance(it, SymIter): return MODELS[itertools.chain](I, [StarSym(I.materialize(it, args[0]))], {})
    return itertools.chain(*[I.drain(I.iterate(a)) for a in I.drain(it)])

@model(operator.is_)
def _(I, args, kw): return I.compare(operator.is_, *args)
@model(operator.is_not)
def _(I, args, kw): return I.compare(operator.is_not, *args)
for _op in (operator.add, operator.sub, operator.mul, operator.truediv, operator.floordiv, operator.mod, operator.pow, operator.lshift, operator.rshift,
            operator.and_, operator.or_, operator.xor):
    MODELS[_op] = (lambda op: lambda I, args, kw: I.binop(op, args[0], args[1]))(_op)
for _op in (operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne):
    MODELS[_op] = (lambda op: lambda I, args, kw: I.compare(op, args[0], args[1]))(_op)

import xml.sax.saxutils as _sax
QUOT_TABLE = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '\n': '&#10;', '\r': '&#13;', '\t': '&#9;'}
@model(_sax.quoteattr)
def _(I, args, kw):
    if len(args) != 1 or kw: raise OutOfSubset('quoteattr with entities')
    x = args[0]
    if isinstance(x, str): return _sax.quoteattr(x)
    if not isinstance(x, SStr): raise OutOfSubset('quoteattr of a non-string')
    I.e.assumptions.add('xml.sax.saxutils.quoteattr follows its source in CPython 3.9: entities for & < > \\n \\r \\t, then quotes chosen by the content')
    t = SStr(hom_apply(QUOT_TABLE, x.t))
    if I.e.branch(z3.Contains(t.t, z3.StringVal('"'))):
        if I.e.branch(z3.Contains(t.t, z3.StringVal("'"))):
            return '"' + SStr(hom_apply({'"': '&quot;'}, t.t)) + '"'
        return "'" + t + "'"
    return '"' + t + '"'

import html as _html
@model(_html.escape)
def _(I, args, kw):
    x = args[0]
    quote = args[1] if len(args) > 1 else kw.get('quote', True)
    if isinstance(x, str): return _html.escape(x, quote)
    if not isinstance(x, SStr) or is_sym(quote): raise OutOfSubset('html.escape of a non-string')
    tab = {'&': '&amp;', '<': '&lt;', '>': '&gt;'}
    if quote: tab.update({'"': '&quot;', "'": '&#x27;'})
    return SStr(hom_apply(tab, x.t))
@model(_sax.escape)
def _(I, args, kw):
    x = args[0]
    if isinstance(x, str): return _sax.escape(*args, **kw)
    if not isinstance(x, SStr) or len(args) > 1 or kw: raise OutOfSubset('saxutils.escape')
    return SStr(hom_apply({'&': '&amp;', '<': '&lt;', '>': '&gt;'}, x.t))
