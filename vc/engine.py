"""
pyvc engine: path exploration by deterministic re-execution, proof obligations, inductive loop cutting.

The explored program is a proof harness (see contracts/): native Python that builds symbolic inputs through the API object I,
runs functions of /repo through vc.interp and states obligations with I.check().  Every `branch` on a symbolic condition forks.
"""
import z3, time, hashlib
from . import core
from .core import *
from .core import _hom_of

class Path:
    "State of one path."
    def __init__(self):
        self.n = 0                  # decisions taken so far
        self.conds = []
        self.log = []               # human-readable decisions

class LoopInfo:
    def __init__(self):
        self.mods = {}              # loc -> sort name ('int','bool','str','val','list','dict') or 'poison'
        self.dead = set()           # candidate names that turned out not to be invariant
        self.peel = 0
        self.alive = None

POISON_OF = {}
def poisoned(v):
    """A variable is used whose value after (or in the middle of) a loop is unknown, e.g. because it is first bound in the loop:
    unroll the first iteration of that loop, once."""
    info = POISON_OF.get(id(v), (None, None))[0]
    if info is not None and info.peel == 0:
        info.peel = 1
        info.mods = {}; info.dead = set()
        raise Restart()
    raise OutOfSubset('use of a variable with unknown value after a loop')

def subterms(t):
    out, todo = {}, [t]
    while todo:
        x = todo.pop()
        if x.get_id() not in out: out[x.get_id()] = x; todo += x.children()
    return list(out.values())

class Engine:
    MAXPATHS = 4000
    def __init__(self, timeout_ms=10000, budget_s=240, prop=''):
        self.timeout_ms, self.budget_s = timeout_ms, budget_s
        self.loops_none = {}; self.restarts_in = {}; self.group = None
        self.results = {}           # obligation name -> dict(status, count, time, detail)
        self.solver_time = 0.0
        self.queries = 0
        self.backends = {}
        self.assumptions = set()
        self.functions = set()      # interpreted functions
        self.stats = {'paths': 0, 'restarts': 0, 'cut_loops': 0, 'infeasible': 0}
        self.local_decisions = None
        self.names = {}

    # ------------------------------------------------------------------------------------------------ exploration

    def explore(self, harness):
        "Run `harness(self)` over all paths. Returns None; fills self.results."
        core.ENGINE = self
        self.deadline = time.time() + self.budget_s
        while True:
            try:
                self._explore(harness)
                return
            except Restart as r:
                self.restarted()
            except BaseException:
                self.merge(); raise

    def restarted(self):
        self.stats['restarts'] += 1
        n = self.restarts_in[self.group] = self.restarts_in.get(self.group, 0) + 1
        if n > 400: raise OutOfSubset('loop invariant inference does not converge')
        if time.time() > self.deadline: raise OutOfSubset('time budget of %d s exhausted' % self.budget_s)

    def freeze(self):
        """Called at the first call of the code: the decisions made so far (choices of the harness) identify a group of paths, and loop
        invariants are inferred for each group separately."""
        if self.group is None:
            self.group = tuple(self.decisions)
            self.loops = self.loops_by.setdefault(self.group, {})
            self.results = self.results_by.setdefault(self.group, {})

    def merge(self):
        out = {}
        rank = {'discharged': 0, 'unknown': 1, 'refuted': 2}
        for res in self.results_by.values():
            for n, o in res.items():
                if n not in out: out[n] = dict(o); continue
                w = out[n]
                c, t = w['count'] + o['count'], w['time'] + o['time']
                if rank.get(o['status'], 1) > rank.get(w['status'], 1): out[n] = w = dict(o)
                w['count'], w['time'] = c, t
        self.results = out

    def _explore(self, harness):
        self.results_by = {None: {}}
        self.loops_by = {None: self.loops_none}
        self.reached = 0
        self.stats['paths'] = 0
        todo = [[]]
        while todo:
            prefix = todo.pop()
            self.prefix = prefix
            self.todo = todo
            self.begin_path()
            self.undo = []
            try:
                harness(self)
                if self.feasible(z3.BoolVal(True)): self.reached += 1
            except PathEnd:
                pass
            except Restart:
                if self.group is None: raise
                self.restarted()
                g = list(self.group)
                todo[:] = [p for p in todo if p[:len(g)] != g] + [g]
                self.results_by[self.group] = {}
            finally:
                for m, n, v in reversed(self.undo): setattr(m, n, v)
            self.stats['paths'] += 1
            if self.stats['paths'] > self.MAXPATHS: raise OutOfSubset('more than %d paths' % self.MAXPATHS)
            if time.time() > self.deadline: raise OutOfSubset('time budget of %d s exhausted' % self.budget_s)
        self.merge()

    def begin_path(self):
        self.decisions = []
        self.group = None
        self.loops, self.results = self.loops_by[None], self.results_by[None]
        self.conds = []
        self.axioms_ = {}
        self.feas_ms = 3000
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_ms)
        self.fresh_n = {}
        self.oids = {}; self.obj_by_id = {}; self.keep = []
        self.trace_ = V.nil
        self.nev = z3.IntVal(0)
        self.active = []            # active loop cuts (write logs)
        self.pure = 0
        self.recs = []
        self.dict_entries = {}      # dicts of any number of items: {id of their term: (term, sequence of (key, value) pairs)}
        self.hints = []
        self.list_hints = []        # (name, elem, length): lists made by loops
        self.index_hints = []       # (name, sort, fn): values of index k
        self.elemfns = {}           # decl name -> maker(i)
        self.site = 'harness'; self.site_n = {}; self.harness_calls = 0
        self.inputs = {}            # name -> term, for counterexamples
        self.callstack = []
        self.contracts = {}
        self.outermost = None
        self._cut_used = False
        self.helpers = {}           # private helpers replaced by stand-ins: called?
        self._known_terms = {}
        self._apps = {}
        self.weak = set()           # facts seldom needed
        self.relevant_first = False
        self.aliases = {}           # id of a substring term -> (term, equal term)
        self.segs = {}              # string terms that are substrings within the bounds of another one
        self.inst_used = {}
        self.local_decisions = None
        POISON_OF.clear()

    # ------------------------------------------------------------------------------------------------ basic services

    def fresh(self, sort, name):
        if isinstance(sort, str): sort = SORTS[sort]
        k = self.fresh_n[name] = self.fresh_n.get(name, 0) + 1
        return z3.Const('%s!%d' % (name, k) if k > 1 else name, sort)

    def axiom(self, t, weak=False):
        "A definitional fact; holds on every path."
        t = z3.simplify(t) if not z3.is_quantifier(t) else t
        if z3.is_true(t): return
        key = t.get_id()
        if key in self.axioms_: return
        self.axioms_[key] = t
        if weak: self.weak.add(key)
        self.solver.add(t)

    def assume(self, t):
        t = zbool(t) if not z3.is_expr(t) else t
        self.conds.append(t)
        self.solver.add(t)

    def _check(self, *extra):
        t0 = time.time()
        self.queries += 1
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t0
        return r

    def feasible(self, t):
        return self._check(t) != z3.unsat

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        return self.decide([t, z3.Not(t)]) == 0

    def decide(self, options):
        "Fork over a list of conditions (exhaustive); returns the index of the option taken on this path and assumes it."
        if self.local_decisions is not None: return self._decide_local(options)
        n = len(self.decisions)
        if n < len(self.prefix):
            k = self.prefix[n]
        else:
            feas = [i for i, c in enumerate(options) if c is None or self.feasible(c)]
            if not feas: self.stats['infeasible'] += 1; raise PathEnd()
            k = feas[0]
            for j in reversed(feas[1:]): self.todo.append(self.decisions + [j])
        self.decisions.append(k)
        if options[k] is not None: self.assume(options[k])
        return k

    def choose(self, n):
        "Unconditional fork in n ways."
        return self.decide([None] * n)

    # --- local exploration (pure evaluation of one expression over all its branches; results merged)

    def _decide_local(self, options):
        L = self.local_decisions
        n = len(L['taken'])
        if n < len(L['prefix']): k = L['prefix'][n]
        else:
            feas = []
            for i, c in enumerate(options):
                if c is None: raise OutOfSubset('free choice in pure mode')
                if self._check(*(L['conds'] + [c])) != z3.unsat: feas.append(i)
            if not feas: raise PathEnd()
            k = feas[0]
            for j in reversed(feas[1:]): L['todo'].append(L['taken'] + [j])
        L['taken'].append(k); L['conds'].append(options[k])
        return k

    def pure_eval(self, fn):
        """Evaluate fn() without effects: over all its branches; results are merged with if-then-else. Branches that raise are dropped
        (they are accounted for where the effects are)."""
        saved, sc, segs = self.local_decisions, (self.trace_, self.nev), self.segs
        outer = saved['conds'] if saved else []
        todo, results = [[]], []
        self.pure += 1
        try:
            while todo:
                p = todo.pop()
                self.local_decisions = dict(prefix=p, taken=[], conds=list(outer), todo=todo)
                self.segs = dict(segs)
                try: r = fn()
                except PathEnd: continue
                except PyExc: continue
                finally: self.trace_, self.nev = sc
                results.append((self.local_decisions['conds'][len(outer):], r))
                if len(results) > 64: raise OutOfSubset('too many branches in a pure expression')
        finally:
            self.pure -= 1
            self.local_decisions = saved
            self.segs = segs
        if not results: raise PathEnd()
        # a condition is only needed where both of its outcomes lead to a result
        keys = [[c.get_id() for c in conds] for conds, _ in results]
        def needed(a, i): return any(b is not a and len(b) > i and b[:i] == a[:i] and b[i] != a[i] for b in keys)
        results = [([c for i, c in enumerate(conds) if needed(a, i)], x) for a, (conds, x) in zip(keys, results)]
        r = results[-1][1]
        for conds, x in reversed(results[:-1]): r = self.ite(z3.And(*conds) if conds else z3.BoolVal(True), x, r)
        return r

    def ite(self, c, a, b):
        c = zbool(c) if not z3.is_expr(c) else c
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        if a is b: return a
        ka, kb = kind(a), kind(b)
        if ka is None or kb is None:
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                return tuple(self.ite(c, x, y) for x, y in zip(a, b))
            ka = kb = 'val'
        if ka == kb: k = ka
        else: k = 'val'
        return wrap(k, z3.If(c, unwrap(SORTS[k], a), unwrap(SORTS[k], b)))

    # --- objects

    def register(self, obj, site=None):
        """Give an object created by the harness or by interpreted code a number that is stable across re-executions:
        it is derived from the place of creation and the count of objects created there on this path."""
        if id(obj) not in self.oids:
            site = site or self.site
            c = self.site_n[site] = self.site_n.get(site, 0) + 1
            k = self.names.setdefault((site, c), len(self.names) + 1)
            self.oids[id(obj)] = k; self.obj_by_id[k] = obj; self.keep.append(obj)
            for lp in self.active: lp['created'].add(k)
        return self.oids[id(obj)]

    def oid(self, obj):
        if id(obj) in self.oids: return self.oids[id(obj)]
        # never registered: identified by qualified name (classes, functions, modules) or by identity on this path
        k = None
        if isinstance(obj, type) or hasattr(obj, '__qualname__'):
            h = hashlib.sha256(('%s.%s' % (getattr(obj, '__module__', ''), obj.__qualname__)).encode()).hexdigest()
            k = -(int(h[:12], 16) + 1)
        if k is None: return self.register(obj, 'adhoc')
        self.oids[id(obj)] = k; self.obj_by_id[k] = obj; self.keep.append(obj)
        return k

    def resolve_V(self, t):
        if z3.is_app(t):
            n = t.decl().name()
            if n in self.elemfns: return self.elemfns[n](*t.children())
            if n == 'cons' and z3.is_app(t.arg(0)) and t.arg(0).decl().name() == 's' and z3.is_string_value(t.arg(0).arg(0)):
                tag = pystr(t.arg(0).arg(0)); items = []; r = t.arg(1)
                while z3.is_app(r) and r.decl().name() == 'cons': items.append(r.arg(0)); r = r.arg(1)
                if z3.is_app(r) and r.decl().name() == 'nil':
                    vals = [from_V(x) for x in items]
                    if tag == 'tuple': return tuple(vals)
        return SVal(t)

    def vlist(self, items):
        l = VList(items)
        self.register(l)
        return l

    def symlist(self, seq, cls=VList):
        l = cls() if cls is VList else cls()
        l.sym = seq
        self.register(l)
        return l

    # --- strings

    def py_str(self, x):
        if x is None: return 'None'
        if isinstance(x, (str, SStr)): return x
        if isinstance(x, SInt):
            if z3.is_int_value(x.t): return str(x.t.as_long())
            return SStr(z3.If(x.t >= 0, z3.IntToStr(x.t), z3.Concat(z3.StringVal('-'), z3.IntToStr(-x.t))))
        if isinstance(x, SBool): return SStr(z3.If(x.t, z3.StringVal('True'), z3.StringVal('False')))
        if isinstance(x, SVal):
            return SStr(z3.If(V.is_s(x.t), V.sv(x.t), f_str(x.t)))
        if is_sym(x) or has_sym(x): return SStr(f_str(to_V(x)))
        if isinstance(x, (int, float)): return str(x)
        return SStr(f_str(to_V(x)))

    def py_repr(self, x):
        if isinstance(x, Sym) or has_sym(x): return SStr(f_repr(to_V(x)))
        if isinstance(x, (str, int, float, type(None), bool)): return repr(x)
        return SStr(f_repr(to_V(x)))

    def repeat(self, ch, t):
        f = z3.Function('rep_%d' % ord(ch), INT, STR)
        self.axiom(z3.Length(f(t)) == z3.If(t > 0, t, 0))
        self.axiom(z3.Implies(t <= 0, f(t) == z3.StringVal('')))
        c, prev = z3.StringVal(ch), f(z3.simplify(t - 1))
        self.axiom(z3.Implies(t > 0, z3.And(f(t) == z3.Concat(c, prev), f(t) == z3.Concat(prev, c))))
        self.axiom(z3.Length(prev) == z3.If(t > 1, t - 1, 0))
        return f(t)

    def val_op(self, name, *args):
        """Operation on an arbitrary value: may raise anything (path forks), otherwise an uninterpreted function of its operands.
        Assumption: operations of user values are deterministic and do not change the state of the renderer."""
        self.assumptions.add('operators of user values are modelled as uninterpreted deterministic functions that may raise')
        ts = [V.s(z3.StringVal(a)) if isinstance(a, str) and name == 'getattr' and i else to_V(a) for i, a in enumerate(args)]
        f = z3.Function('op_%s_%d' % (name, len(ts)), *([V] * (len(ts) + 1)))
        g = z3.Function('opraises_%s_%d' % (name, len(ts)), *([V] * len(ts) + [BOOL]))
        if not self.pure and self.branch(g(*ts)):
            raise PyExc(OpError(name, [z3.simplify(t) for t in ts]))
        return SVal(f(*ts))

    # --- sequences as terms

    def zseq(self, x):
        "z3 Seq(V) term of a list/tuple/SSeq."
        if isinstance(x, list) and getattr(x, 'sym', None) is not None: x = x.sym
        if isinstance(x, VTuple): x = x.sym
        if isinstance(x, ZSeq): return x.term
        if isinstance(x, SSeq):
            return self.seq_of(x)
        if isinstance(x, (list, tuple)):
            r = z3.Empty(SEQ)
            us = [z3.Unit(to_V(y)) for y in x]
            if not us: return r
            return us[0] if len(us) == 1 else z3.Concat(*us)
        raise OutOfSubset('sequence term of %s' % type(x))

    def seq_of(self, s):
        "An SSeq as a z3 Seq: recurrence over its elements, S(0) = [], S(k+1) = S(k) ++ [elem(k)]; the term is S(n)."
        if getattr(s, 'catparts', None):
            ts = [self.zseq(p) for p in s.catparts]
            return z3.Concat(*ts) if len(ts) > 1 else ts[0]
        if z3.is_int_value(s.n) and 0 <= s.n.as_long() <= 8:
            return self.zseq([s.at(z3.IntVal(i)) for i in range(s.n.as_long())])
        if getattr(s, '_zrec', None) is None:
            key = self.seq_key(s)
            s._zrec = Rec(self, 'seq_' + key, 'list', lambda k, acc: self.concat_list(acc, [s.at(zint(k))]))
        r = s._zrec.at(z3.Empty(SEQ), s.n)
        self.axiom(z3.Implies(s.n >= 0, z3.Length(r) == s.n))       # by induction: every step appends exactly one element
        return r

    def seq_key(self, s):
        i = z3.Int('i?')
        t = to_V(s.at(i))
        return hashlib.md5((t.sexpr() + '|').encode()).hexdigest()[:10]

    def concat_list(self, acc, items):
        l = VList(); l.sym = ZSeq(z3.simplify(z3.Concat(self.zseq(acc), self.zseq(items)))); return l

    def seq_term(self, s):
        return z3.Function('seqv', SEQ, V)(self.zseq(s))

    def zdict(self, x):
        if isinstance(x, VDict) and x.term is not None: return x.term
        if isinstance(x, dict):
            t = d_empty
            for k, v in x.items(): t = d_set(t, to_V(k), to_V(v))
            return t
        raise OutOfSubset('dict term')

    # --- trace

    def event(self, name, *args):
        if self.pure: return
        ev = V.cons(V.s(z3.StringVal(name)), vtuple([to_V(a) for a in args]))
        self.trace_ = z3.simplify(V.cons(ev, self.trace_))
        self.nev = z3.simplify(self.nev + 1)
        self.note_write(('trace',)); self.note_write(('nev',))

    # ------------------------------------------------------------------------------------------------ obligations

    def check(self, name, goal, note=''):
        if self.pure: raise EngineError('check in pure mode')
        g = zbool(goal) if not z3.is_expr(goal) else goal
        ent = self.results.setdefault(name, dict(status='discharged', count=0, time=0.0, detail='', model=None, cut=False))
        ent['count'] += 1
        g = z3.simplify(g)
        if z3.is_true(g):
            self.backends['simplifier'] = self.backends.get('simplifier', 0) + 1
            return
        if ent['status'] == 'refuted': return
        t0 = time.time()
        st, model, be = self.prove(g)
        ent['time'] += time.time() - t0
        self.backends[be] = self.backends.get(be, 0) + 1
        if st != 'discharged':
            if ent['status'] != 'refuted':
                ent.update(status=st, cut=bool(self.cut_used), detail=self.describe(name, g, model, note), model=self.model_inputs(model))
            # continue as if the obligation held, so that later ones are examined on their own
        self.assume(g)

    def prove(self, g, quick=False):
        self.queries += 1
        rewritten = self.relevant_first and any(f.startswith('join_') for f in self.apps_names(g))
        if rewritten and self.rewrite_prove(g): return 'discharged', None, 'rewriting+z3'
        t0 = time.time()
        self.solver.set('timeout', 2000 if quick else self.timeout_ms)
        try: r = self.solver.check(z3.Not(g))
        finally: self.solver.set('timeout', self.feas_ms)
        model = None
        if r == z3.sat: model = self.solver.model()
        self.solver_time += time.time() - t0
        if r == z3.unsat: return 'discharged', None, 'z3'
        if r == z3.sat: return 'refuted', model, 'z3'
        if self.relevant_first:
            if z3.is_false(z3.simplify(g)):
                # the path cannot be taken: one of its conditions contradicts the others
                last = [c for c in self.conds if self.apps(c)][-3:]
                for c in reversed(last):
                    conds = self.conds
                    self.conds = [d for d in conds if d.get_id() != c.get_id()]
                    try: ok = self.rewrite_prove(z3.Not(c))
                    finally: self.conds = conds
                    if ok: return 'discharged', None, 'rewriting+z3'
            elif not rewritten and self.rewrite_prove(g): return 'discharged', None, 'rewriting+z3'
            for rounds in (1, 2, 3):
                t0 = time.time()
                s = z3.Solver(); s.set('timeout', 1500 if quick else 4000)
                s.add(*self.relevant(g, rounds)); s.add(z3.Not(g))
                r = s.check()
                self.solver_time += time.time() - t0
                if r == z3.unsat: return 'discharged', None, 'z3-relevant'
        if quick: return 'unknown', None, 'z3'
        # a fresh solver without the incremental state, other seed
        t0 = time.time()
        s = z3.Solver(); s.set('timeout', self.timeout_ms); s.set('random_seed', 3)
        s.add(*self.axioms_.values()); s.add(*self.conds); s.add(z3.Not(g))
        r = s.check()
        self.solver_time += time.time() - t0
        if r == z3.unsat: return 'discharged', None, 'z3-fresh'
        if r == z3.sat: return 'refuted', s.model(), 'z3-fresh'
        r = cvc5_check(s.to_smt2(), self.timeout_ms)
        if r == 'unsat': return 'discharged', None, 'cvc5'
        return 'unknown', None, 'none'

    def rewrite_prove(self, g, rounds=5):
        """Proof by rewriting: applications of functions in g are replaced with what the facts of the path say they are equal to,
        conditions decided by the path are resolved; what remains must follow from the conditions of the path alone."""
        t0 = time.time()
        small = z3.Solver(); small.set('timeout', 2000)
        conds = [z3.simplify(c) for c in self.conds]
        small.add(*conds)
        axioms = [f for k, f in self.axioms_.items() if k not in self.weak]
        # numbers that the conditions of the path determine
        for c in conds:
            if not (z3.is_eq(c) and c.arg(0).sort() == INT): continue
            for x, t in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if not (z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED): continue
                if z3.is_app_of(t, z3.Z3_OP_ITE):
                    for cc, b in ((t.arg(0), t.arg(2)), (z3.Not(t.arg(0)), t.arg(1))):
                        if small.check(cc) == z3.unsat: t = b; break
                if z3.is_app_of(t, z3.Z3_OP_ITE) or x.get_id() in {y.get_id() for y in subterms(t)}: continue
                sub = lambda f: z3.simplify(z3.substitute(f, (x, t)))
                g, conds, axioms = sub(g), [sub(c) for c in conds], [sub(f) for f in axioms if not z3.is_quantifier(f)]
                break
        small.add(*conds)
        have, used = set(), set()
        for c in conds: have |= self.apps(c)
        def facts_about(t):
            "facts with few terms about what occurs in t"
            have.update(self.apps(t))
            for f in axioms:
                if f.get_id() not in used and len(self.apps(f)) <= 3 and self.apps(f) & have:
                    used.add(f.get_id()); small.add(f)
            for k in [k for k, (d, _) in memo.items() if d is None]: del memo[k]
        memo = {}
        def decide(c):
            k = c.get_id()
            if k not in memo:
                memo[k] = (None, c)
                if small.check(z3.Not(c)) == z3.unsat: memo[k] = (True, c)
                elif small.check(c) == z3.unsat: memo[k] = (False, c)
            return memo[k][0]
        def is_app(t): return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0 and t.sort() != BOOL
        def resolve(t, seen):
            "ite terms of a string, decided"
            k = t.get_id()
            if k in seen: return seen[k]
            r = t
            if z3.is_app(t) and t.num_args() and not is_app(t):
                if t.decl().kind() == z3.Z3_OP_ITE:
                    d = decide(t.arg(0))
                    if d is not None: r = resolve(t.arg(1) if d else t.arg(2), seen)
                    else: r = z3.If(t.arg(0), resolve(t.arg(1), seen), resolve(t.arg(2), seen))
                elif t.sort() == STR or z3.is_eq(t):
                    ch = [resolve(c, seen) for c in t.children()]
                    if any(a.get_id() != b.get_id() for a, b in zip(ch, t.children())): r = t.decl()(*ch)
            seen[k] = r
            return r
        rules = {}          # id of application -> [(guards, other side)]
        def rule(eq, guards, ax):
            for a, b in ((eq.arg(0), eq.arg(1)), (eq.arg(1), eq.arg(0))):
                if ax and is_app(a) and a.decl().name().startswith('rec_') and z3.is_const(a.arg(0)): continue      # a recurrence is unfolded at k + 1, not at k
                if is_app(a) and a.get_id() not in self.apps(b): rules.setdefault(a.get_id(), []).append((guards, b, a)); return
        for f, ax in [(f, True) for f in axioms] + [(f, False) for f in conds]:
            guards, body = [], f
            if z3.is_implies(f): guards, body = [z3.Not(f.arg(0))], f.arg(1)
            if z3.is_or(f):
                body = [d for d in f.children() if z3.is_eq(d) or z3.is_and(d)]
                if not body: continue
                body = body[-1]
                guards = [d for d in f.children() if d.get_id() != body.get_id()]
            for b in (body.children()[:1] if z3.is_and(body) else [body]):
                if z3.is_eq(b) and b.arg(0).sort() == STR: rule(b, guards, ax)
        try:
            for r in range(rounds):
                facts_about(g)
                g = z3.simplify(resolve(g, {}))
                if z3.is_true(g): return True
                if small.check(z3.Not(g)) == z3.unsat: return True
                subs, todo, seen = [], [g], set()
                while todo:
                    x = todo.pop()
                    if x.get_id() in seen: continue
                    seen.add(x.get_id())
                    hit = False
                    if is_app(x):
                        for guards, y, a in rules.get(x.get_id(), ()):
                            if all(decide(d) is False for d in guards): subs.append((x, y)); hit = True; break
                    if z3.is_app(x) and not hit: todo += x.children()
                if not subs:
                    have = set(self.apps(g))
                    for c in conds: have |= self.apps(c)
                    full = z3.Solver(); full.set('timeout', 2000)
                    full.add(*[f for f in axioms if self.apps(f) <= have], *conds)
                    return full.check(z3.Not(g)) == z3.unsat
                g = z3.substitute(g, *subs)
            return False
        finally: self.solver_time += time.time() - t0

    def apps_names(self, t):
        return {x.decl().name() for x in subterms(t) if z3.is_app(x) and x.num_args()}

    def apps(self, t):
        k = t.get_id()
        if k not in self._apps:
            out, todo, seen = set(), [t], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() != INT and (x.num_args() or x.sort() != BOOL): out.add(x.get_id())
                    todo += x.children()
            self._apps[k] = (out, t)
        return self._apps[k][0]

    def relevant(self, g, rounds):
        "the facts and conditions of the path connected with g through applications of functions, in so many steps"
        apps = self.apps
        have = set(apps(g))
        conds = [z3.simplify(c) for c in self.conds]
        for c in conds: 
            if len(apps(c)) <= 3: have |= apps(c)
        facts = [f for k, f in self.axioms_.items() if k not in self.weak]
        chosen = {}
        for r in range(rounds):
            new = set()
            for f in facts:
                if f.get_id() in chosen: continue
                a = apps(f)
                if not a or a <= have or (a & have and len(a - have) <= 4 * (r + 1)):
                    chosen[f.get_id()] = f; new |= a
            have |= new
        return list(chosen.values()) + conds

    def model_inputs(self, m):
        if m is None: return None
        out = {}
        for k, t in self.inputs.items():
            try: out[k] = str(m.eval(t, model_completion=True))[:200]
            except Exception: pass
        return out

    def describe(self, name, g, model, note):
        s = 'obligation: %s\n' % name
        if note: s += 'note: %s\n' % note
        s += 'path: %s\n' % '; '.join(str(z3.simplify(c))[:300] for c in self.conds[-12:])
        s += 'goal: %s\n' % str(g)[:1500]
        if model is not None: s += 'counter-model of inputs: %s\n' % self.model_inputs(model)
        return s

    @property
    def cut_used(self):
        "a refutation is not conclusive: by induction, by incomplete axioms, or about stand-ins that the code no longer calls"
        return getattr(self, '_cut_used', False) or not all(self.helpers.values())

    # ------------------------------------------------------------------------------------------------ loops

    def note_write(self, loc):
        for lp in self.active: lp['writes'].add(loc)

    def rec(self, name, sort, step, init=None):
        r = Rec(self, name, sort, step)
        r.init0 = init
        self.recs.append(r)
        return r

    def read_loc(self, loc, ctx):
        k = loc[0]
        if k == 'local':
            fr = ctx['frames'][loc[1]]
            return fr.vars.get(loc[2], UNBOUND)
        if k == 'attr':
            return self.obj_by_id[loc[1]].__dict__.get(loc[2], UNBOUND)
        if k == 'list':
            return self.obj_by_id[loc[1]]
        if k == 'trace': return SVal(self.trace_)
        if k == 'nev': return SInt(self.nev)
        if k == 'dict': return self.obj_by_id[loc[1]]
        raise EngineError(loc)

    def write_loc(self, loc, val, ctx):
        k = loc[0]
        if k == 'local':
            v = ctx['frames'][loc[1]].vars
            if val is UNBOUND: v.pop(loc[2], None)
            else: v[loc[2]] = val
        elif k == 'attr':
            d = self.obj_by_id[loc[1]].__dict__
            if val is UNBOUND: d.pop(loc[2], None)
            else: d[loc[2]] = val
        elif k == 'list':
            l = self.obj_by_id[loc[1]]
            list.clear(l)
            if isinstance(val, VList) and val.sym is None: list.extend(l, list.__iter__(val)); l.sym = None
            elif isinstance(val, VList): l.sym = val.sym
            else: raise EngineError('list loc')
        elif k == 'trace': self.trace_ = val.t
        elif k == 'nev': self.nev = val.t
        elif k == 'dict':
            d = self.obj_by_id[loc[1]]
            dict.clear(d)
            if val.term is None: dict.update(d, val); d.term = None
            else: d.term = val.term
        for lp in self.active: lp['writes'].add(loc)

    def cut_loop(self, key, n, body, ctx, cond=None):
        """Inductive treatment of a loop. n: z3 Int term, the number of iterations (or None for a while loop with `cond`).
        body(k): executes one iteration, returns 'next' or 'break'. Returns 'done' or 'break'."""
        if self.pure: raise OutOfSubset('effectful symbolic loop in pure mode')
        self._cut_used = True
        info = self.loops.setdefault(key, LoopInfo())
        self.stats['cut_loops'] = len({k for l in self.loops_by.values() for k in l})
        k0 = 0
        for loc in list(info.mods):
            if loc[0] in ('attr', 'list', 'dict') and loc[1] not in self.obj_by_id: ctx['absent'].add(loc)
        mods = lambda: [loc for loc in info.mods if loc not in ctx['absent']]
        snap0 = {loc: self.snapshot(self.read_loc(loc, ctx)) for loc in mods()}
        for p in range(info.peel):
            if n is not None:
                if not self.branch(n > p): return 'done'
            else:
                if not cond(): return 'done'
            if body(z3.IntVal(p)) == 'break': return 'break'
            k0 = p + 1
        entry = {loc: self.snapshot(self.read_loc(loc, ctx)) for loc in mods()}
        # sorts of modified locations
        for loc, v in entry.items():
            s0 = info.mods[loc]
            s1 = join_kind(s0, kind_of(v))
            if s1 != s0: info.mods[loc] = s1; raise Restart()
        mode = self.choose(2)          # 0: arbitrary iteration, 1: exit
        k = self.fresh(INT, 'k')
        self.assume(k >= k0)
        new = {}
        cands4 = [c for c in self.candidates(info, snap0, entry, new, ctx, k0) if c[0] not in info.dead]
        for loc, s in sorted(info.mods.items(), key=repr):
            if loc in ctx['absent']: continue
            if s == 'unbound': val = UNBOUND
            elif s == 'poison':
                val = None
                if loc[0] in ('local', 'attr'): val = Poison(); POISON_OF[id(val)] = (info, val)
            else:
                # a location for which some candidate gives an explicit value gets that value
                val = None
                for nm, f, l, vf in cands4:
                    if l == loc and vf is not None:
                        val = vf(k); break
                if val is None:
                    t = self.fresh(SORTS[s], 'h_%s' % (loc[-1] if loc[0] != 'list' else 'list'))
                    val = wrap(s, t)
            if val is None: raise OutOfSubset('loop modifies %s' % (loc,))
            self.write_loc(loc, val, ctx); new[loc] = val
        cands = [(nm, f) for nm, f, l, vf in cands4]
        # initially true?
        if mode == 0:
            cur = {loc: entry[loc] for loc in mods()}
            for nm, f in cands:
                t = f(z3.IntVal(k0), cur)
                if t is None: self.died(info, nm); continue
                t = z3.simplify(t)
                if not z3.is_true(t) and self.prove(t, quick=True)[0] != 'discharged': self.died(info, nm)
            if any(nm in info.dead for nm, f in cands): raise Restart()
        for nm, f in cands:
            t = f(k, new)
            if t is None: info.dead.add(nm); raise Restart()
            self.assume(t)
        if mode == 1:
            if n is not None:
                self.assume(k == z3.If(n > k0, n, k0) if k0 else k == z3.If(n > 0, n, 0))
                if not self.feasible(z3.BoolVal(True)): raise PathEnd()
            else:
                if cond(): raise PathEnd()
            return 'done'
        if n is not None: self.assume(k < n)
        if not self.feasible(z3.BoolVal(True)): raise PathEnd()
        log = dict(writes=set(), created=set())
        self.active.append(log)
        try:
            try:
                if cond is not None and not cond(): raise PathEnd()
                r = body(k)
            except Control as e:
                if isinstance(e, (Restart, PathEnd, OutOfSubset, EngineError)): raise
                self.settle(info, log, ctx); raise
            except BaseException:
                self.settle(info, log, ctx); raise
        finally:
            self.active.remove(log)
        self.settle(info, log, ctx)
        if r == 'break': return 'break'
        cur = {}
        for loc in mods():
            v = cur[loc] = self.snapshot(self.read_loc(loc, ctx))
            s1 = join_kind(info.mods[loc], kind_of(v))
            if s1 != info.mods[loc]: info.mods[loc] = s1; raise Restart()
        for nm, f in cands:
            t = f(k + 1, cur)
            if t is None: self.died(info, nm); continue
            t = z3.simplify(t)
            if z3.is_true(t): continue
            if self.prove(t, quick=True)[0] != 'discharged': self.died(info, nm)
        if any(nm in info.dead for nm, f in cands): raise Restart()
        raise PathEnd()

    def died(self, info, nm):
        info.dead.add(nm)
        if not self.relevant_first: raise Restart()

    def settle(self, info, log, ctx):
        "All locations written in this iteration must be among the havocked ones."
        miss = False
        for loc in log['writes']:
            if loc[0] in ('attr', 'list', 'dict') and loc[1] in log['created']: continue
            if loc[0] == 'local' and loc[1] not in ctx['frames']: continue     # frame of a function called inside the body
            if loc not in info.mods:
                info.mods[loc] = kind_of(self.snapshot(self.read_loc(loc, ctx)))
                miss = True
        if miss:
            info.dead.clear()       # candidates may have failed only because a variable was taken for a constant
            raise Restart()

    def snapshot(self, v):
        if isinstance(v, VList):
            c = VList(); c.sym = v.sym
            if v.sym is None: list.extend(c, list.__iter__(v))
            return c
        if isinstance(v, VDict):
            c = type(v)(); c.term = v.term
            if v.term is None: dict.update(c, v)
            return c
        return v

    def candidates(self, info, snap0, entry, new, ctx, k0):
        """Candidate invariants: (name, f, loc, value): f(k, cur) is the Bool term of the invariant for the values `cur` of locations after
        k iterations; value(k), if given, is the value of `loc` it implies."""
        out = []
        def term(s, v): return unwrap(SORTS[s], v)
        def add(nm, loc, s, rhs, val=None):
            "location == rhs(k), a term"
            def f(k, cur):
                v = cur[loc]
                if kind_of(v) in ('unbound', 'poison'): return None
                r = rhs(k)
                return None if r is None else term(s, v) == r
            out.append((nm, f, loc, val or (lambda k: wrap(s, rhs(k)))))
        for loc, s in sorted(info.mods.items(), key=repr):
            if s in ('poison', 'unbound') or loc in ctx['absent']: continue
            e, e0 = entry.get(loc, UNBOUND), snap0.get(loc, UNBOUND)
            nm = '%s' % (loc,)
            if s == 'list':
                for hn, elem, length in self.list_hints:
                    sq = lambda k, elem=elem, length=length: SSeq(z3.simplify(length(k)), elem)
                    def lval(k, sq=sq):
                        l = VList(); l.sym = sq(k); return l
                    add('%s == [%s]' % (nm, hn), loc, s, lambda k, sq=sq: self.zseq(sq(k)), lval)
            if kind_of(e) == 'unbound': continue
            te = term(s, e)
            add(nm + ' == entry', loc, s, lambda k, te=te: te, lambda k, e=e: self.snapshot(e))
            if s == 'int':
                for c in (1, 2, 3, -1):
                    add(nm + ' == entry + %d k' % c, loc, s, lambda k, te=te, c=c: z3.simplify(te + c * (k - k0)))
                out.append((nm + ' >= entry', lambda k, cur, loc=loc, te=te: zint(cur[loc]) >= te, None, None))
            if s == 'bool':
                add(nm + ' == (k == 0)', loc, s, lambda k: k == 0)
                add(nm + ' == (k > 0)', loc, s, lambda k: k > 0)
            for r in self.recs:
                if r.sort != SORTS[s]: continue
                if kind_of(e0) not in ('unbound', 'poison'):
                    t0 = term(s, e0)
                    add(nm + ' == %s(entry, k)' % r.name, loc, s, lambda k, r=r, t0=t0: r.at(t0, k))
                if r.init0 is not None:
                    ti = unwrap(r.sort, r.init0)
                    add(nm + ' == %s(init, k)' % r.name, loc, s, lambda k, r=r, ti=ti: r.at(ti, k))
                    add(nm + ' == %s(init, k+1)' % r.name, loc, s, lambda k, r=r, ti=ti: r.at(ti, z3.simplify(k + 1)))
                    if s in ('list', 'str') and is_empty(ti) and not is_empty(z3.simplify(te)):
                        add(nm + ' == entry + %s(init, k)' % r.name, loc, s, lambda k, r=r, ti=ti, te=te: z3.Concat(te, r.at(ti, k)))
            for hn, sort, fn in self.index_hints:
                if sort != s: continue
                add('%s == %s(k)' % (nm, hn), loc, s, lambda k, fn=fn, s=s: term(s, self.pure_eval(lambda: fn(SInt(k)))))
                def prev(k, cur, loc=loc, fn=fn, s=s):
                    v = cur[loc]
                    if kind_of(v) in ('unbound', 'poison'): return None
                    return z3.Or(k <= 0, term(s, v) == term(s, self.pure_eval(lambda: fn(SInt(z3.simplify(k - 1))))))
                out.append(('%s == %s(k-1)' % (nm, hn), prev, None, None))
        for r in self.recs:
            if r.sort == BOOL and r.init0 is not None:
                out.append(('ghost %s(k)' % r.name, lambda k, cur, r=r: r.at(unwrap(BOOL, r.init0), k), None, None))
                out.append(('ghost %s(k+1)' % r.name, lambda k, cur, r=r: r.at(unwrap(BOOL, r.init0), z3.simplify(k + 1)), None, None))
        view0 = View(self, entry, ctx)
        for h in self.hints:
            for nm, f in h(view0, info.mods):
                def g(k, cur, f=f):
                    try: r = f(SInt(k), View(self, cur, ctx))
                    except KeyError: return None
                    if r is None: return None
                    return r.t if isinstance(r, SBool) else (z3.BoolVal(r) if isinstance(r, bool) else r)
                out.append(('hint ' + nm, g, None, None))
        return out


def is_empty(t):
    t = z3.simplify(t)
    return t.decl().kind() == z3.Z3_OP_SEQ_EMPTY or z3.is_string_value(t) and t.as_string() == ''

class View:
    "Access to the values of locations, for harness hints."
    def __init__(self, eng, vals, ctx): self.eng, self.vals, self.ctx = eng, vals, ctx
    def ints(self):
        return [loc for loc, v in self.vals.items() if kind_of(v) == 'int']
    def __getitem__(self, loc): return self.vals[loc]

class OpError(Exception):
    "An exception raised by an operation of an arbitrary value."
    def __init__(self, op, args): self.op, self.opargs = op, args
    def __str__(self): return 'error of operation %s' % self.op

class _Unbound: pass
UNBOUND = _Unbound()

def kind(x):
    if isinstance(x, (bool, SBool)): return 'bool'
    if isinstance(x, (int, SInt)): return 'int'
    if isinstance(x, (str, SStr)): return 'str'
    if isinstance(x, SVal) or x is None: return 'val'
    if isinstance(x, VMap): return 'map'
    if isinstance(x, VDict): return 'dict'
    if isinstance(x, VList): return 'list'
    return None

def kind_of(v):
    if v is UNBOUND: return 'unbound'
    if isinstance(v, Poison): return 'poison'
    k = kind(v)
    if k: return k
    if isinstance(v, (VTuple, SSeq)): return 'poison'
    return 'val'

def join_kind(a, b):
    if a == b: return a
    if 'poison' in (a, b) or 'unbound' in (a, b): return 'poison'
    if 'list' in (a, b) or 'dict' in (a, b) or 'map' in (a, b): return 'poison'
    return 'val'

def cvc5_check(smt2, timeout_ms):
    try:
        import subprocess, tempfile, os
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write('(set-logic ALL)\n' + smt2)
        try: p = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, '--strings-exp', f.name], capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
        finally: os.unlink(f.name)
        return p.stdout.strip().split('\n')[0]
    except Exception as e:
        return 'unknown'
