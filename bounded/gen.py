"Random abstract programs (model.py). A profile sets the mix of constructs."
from .common import *
from .model import *

TAGNAMES = ['p', 'div', 'b', 'ul', 'li', 'a', 'h1', 'SPAN', 'section', 'i', 'table']
class Profile:
    weights = dict(text=5, tags=5, if_=1, for_=1, while_=.5, try_=.5, assign=1, comment=.5, def_=.6, use=1, pass_=.2, unpack=.2, do=.3, inplace=.3)
    blank = .25; mods = .06; tail = .35; tabs = .15; expr = .4; fail = 0.; specials = .3; attrs = .4; trace = .25; none = 0.; halt = 0.; depth = 4; bool_attr = .15; trailing = .2
    multiline_values = 0.; ascii = False; indent0 = .1; base = .1; embed_many = .3; qualifiers = .1; marker_space = .85; nullchain = .05; void = .05; attrfail = 0.; halt = 0.; badbind = 0.
    def __init__(self, **kw):
        w = dict(self.weights); w.update(kw.pop('weights', {})); self.weights = w
        for k, v in kw.items(): assert hasattr(Profile, k), k; setattr(self, k, v)

class Env(dict):
    "visible variables, name -> type; outer: names that belong to enclosing scopes; branch: inside a control block of the current scope"
    outer = frozenset(); branch = False
    def scope(self): e = Env(self); e.outer = frozenset(self); return e
    def fork(self): e = Env(self); e.outer = self.outer; e.branch = True; return e
    def assignable(self, n): return not (self.branch and n in self.outer)

class Gen:
    def __init__(self, r, size, profile=None):
        self.r, self.size, self.p = r, size, profile or Profile()
        self.n = 0; self.budget = 2 + size * 3
        self.uid = 0; self.notrace = False
    def fresh(self, p='v'):
        self.uid += 1
        if p == 'v' and self.r.random() < .25: p = self.r.choice(['is_', 'notv', '_v', 'in', 'orv', 'Nonev', 'forV', 'tryv_'])      # like a keyword in part
        return '%s%d' % (p, self.uid)
    def id(self): self.uid += 1; return 'k%d' % self.uid
    # ---- names: env = dict name -> type; tags = dict name -> (params, bodyname)
    def indent(self):
        r = self.r
        if r.random() < self.p.tabs: return r.choice(['\t', '\t\t', ' \t', '\t ', '  \t'])
        return ' ' * r.choice([1, 2, 2, 3, 4, 4, 7])
    # ---- expressions
    def pick(self, env, *types):
        c = [n for n, t in env.items() if t in types]
        return self.r.choice(c) if c else None
    def strexpr(self, env, d=1):
        r = self.r; k = r.random(); n = self.pick(env, 'str')
        if n and k < .4: return n
        if d and k < .55: return '%s + %s' % (self.strexpr(env, 0), self.strexpr(env, 0))
        if d and k < .6: return '%s.upper()' % (n or repr(word(r)))
        if d and k < .68: return 'str(%s)' % self.intexpr(env, d - 1)
        if d and k < .68 + self.p.trace / 3: return "t('%s', %s)" % (self.id(), self.strexpr(env, 0))
        if k > 1 - self.p.multiline_values: return r.choice(["'a\\nb'", "'x\\n  y\\n z'", "'\\n'", "'q\\n'", "' lead\\n    more'"])
        s = word(r) if r.random() > self.p.specials else r.choice(['a<b', 'x & y', '"q"', 'it is', '<i>z</i>', '&amp;', 'a>b', '', ' sp ', 'ż漢'])
        return repr(s) if "'" not in s else '"%s"' % s
    def intexpr(self, env, d=1):
        r = self.r; k = r.random(); n = self.pick(env, 'int')
        if n and k < .5: return n
        if d and k < .7: return '%s %s %s' % (self.intexpr(env, 0), r.choice('+-*'), self.intexpr(env, 0))
        if d and k < .7 + self.p.trace / 4: return "t('%s', %s)" % (self.id(), self.intexpr(env, 0))
        return str(r.choice([0, 1, 2, 3, 7, 10]))
    def boolexpr(self, env, value=None):
        r = self.r
        if value is not None:
            s = r.choice(['1', 'True', "'x'", '[0]', '2 > 1']) if value else r.choice(['0', 'False', "''", '[]', 'None', '1 > 2', '{}'])
            return "t('%s', %s)" % (self.id(), s) if r.random() < self.p.trace * 2 else s
        k = r.random()
        if k < .5: return self.boolexpr(env, r.random() < .5)
        if k < .8: return '%s %s %s' % (self.intexpr(env), r.choice(['<', '>', '==', '!=', '<=']), self.intexpr(env))
        return self.strexpr(env)
    def any(self, env):
        r = self.r; k = r.random()
        if k < .55: return E(self.strexpr(env)), 'str'
        return E(self.intexpr(env)), 'int'
    def embed(self, env):
        "expression to be embedded in a text"
        r = self.r
        if r.random() < self.p.halt: return E("halt('%s', '%s')" % (self.id(), r.choice(['KeyboardInterrupt', 'SystemExit', 'GeneratorExit'])))
        if r.random() < self.p.fail: return E("boom('%s', '%s')" % (self.id(), r.choice(['ValueError', 'KeyError', 'TypeError', 'ZeroDivisionError', 'AttributeError', 'NameError', 'UnboundLocalError', 'AssertionError', 'StopIteration', 'SyntaxError', 'OSError', 'RuntimeError'])), q='')
        if r.random() < self.p.none: return E(r.choice(['None', "t('%s', None)" % self.id()]))
        e, t = self.any(env)
        if e.isname() and r.random() < .6: e.short = True
        elif r.random() < self.p.qualifiers: e.q = '?'
        return e
    # ---- text
    def pieces(self, env, first=False):
        r = self.r; out = []
        for i in range(r.choice([1, 1, 2, 3])):
            if r.random() < self.p.expr: out.append(self.embed(env))
            else:
                s = self.literal()
                if out and isinstance(out[-1], Lit): out[-1] = Lit(out[-1].s + ' ' + s)
                else: out.append(Lit(r.choice(['', ' ']) + s + r.choice(['', ' ']) if i else s + r.choice(['', ' '])))
        if isinstance(out[-1], Lit): out[-1] = Lit(out[-1].s.rstrip() or 'z')
        if isinstance(out[0], Lit): out[0] = Lit(out[0].s.lstrip() or 'z')
        return out
    def literal(self):
        r = self.r
        s = plain(r, r.choice([1, 1, 2])) if r.random() < self.p.specials else word(r)
        if r.random() < self.p.specials * .3: s += r.choice(['$', '{', '}', '{}', '$x', '$$', '{{x}}', '${'])
        if self.p.ascii: s = s.encode('ascii', 'ignore').decode() or 'w'
        return s
    def text(self, env, kind=None, tail=None, head_only=False):
        r = self.r
        kind = kind or r.choice('||||/!')
        def line():
            if kind == '!':
                s = self.literal().strip() or 'z'
                return [Lit('z' + s if s[0] == '=' else s)]             # `if x !=` is a comparison
            return merge_lits(self.pieces(env))
        gap = ' ' if r.random() < self.p.marker_space else r.choice(['', '  ', '   ', '\t'])
        first = line()
        h = [Lit(gap)] + first if gap else first
        if kind != '!' and not gap and isinstance(h[0], Lit) is False: pass
        lines = [(None, merge_lits(h))]
        if tail is None: tail = r.random() < self.p.tail
        if head_only or not tail: return Text(kind, lines)
        nohead = r.random() < .15
        if nohead: lines = [(None, [])]
        w = self.indent(); cur = w
        for i in range(r.choice([1, 2, 2, 3, 4])):
            if i and r.random() < .3: cur = w if cur != w or r.random() < .3 else w + self.indent()
            if i and r.random() < self.p.blank: lines += [(None, [Lit('')])] * r.choice([1, 1, 2])
            lines.append((cur, line()))
        return Text(kind, lines)
    # ---- blocks
    def body(self, env, tags, depth, w=None, control=False):
        b = Body(w or self.indent(), self.blocks(env, tags, depth, control))
        return b
    def blocks(self, env, tags, depth, control=False, n=None):
        r = self.r
        n = n or r.choice([1, 1, 2, 2, 3])
        out = []
        for _ in range(n):
            b = self.block(env, tags, depth, control)
            if r.random() < self.p.blank: b.blank = r.choice([1, 1, 2, 3])
            if r.random() < self.p.mods and not isinstance(b, (Def, Comment)): b.mod = r.choice(['<', '...'])
            out.append(b)
        return out
    def block(self, env, tags, depth, control):
        r = self.r; p = self.p; self.budget -= 1
        W = dict(p.weights)
        if depth <= 0 or self.budget < 0: W = {k: v for k, v in W.items() if k in ('text', 'assign', 'comment', 'do', 'pass_', 'inplace', 'use')}
        if control: W.pop('def_', None)
        if not tags: W.pop('use', None)
        if not any(t == 'int' for t in env.values()): W.pop('inplace', None)
        k = r.choices(list(W), list(W.values()))[0]
        return getattr(self, 'b_' + k)(env, tags, depth, control)
    def b_text(self, env, tags, depth, control): return self.text(env)
    def b_comment(self, env, tags, depth, control):
        r = self.r
        return Comment([r.choice(['--', '#', '-- ']) + self.literal()] + (['   ' + self.literal()] if r.random() < .3 else []))
    def b_pass_(self, env, tags, depth, control): return Pass()
    def b_do(self, env, tags, depth, control): return Do(E("t('%s', %s)" % (self.id(), self.intexpr(env, 0))))
    def b_assign(self, env, tags, depth, control):
        e, t = self.any(env)
        n = self.pick(env, t) if self.r.random() < .3 else None
        if n is None or not env.assignable(n): n = self.fresh()
        env[n] = t
        return Assign(n, e)
    def b_inplace(self, env, tags, depth, control):
        n = self.pick(env, 'int')
        if not env.assignable(n): return Do(E(n))
        op = self.r.choice(['+', '-', '*'])
        return Assign(n, E(self.intexpr(env)), op)
    def b_unpack(self, env, tags, depth, control):
        a, b = self.fresh(), self.fresh()
        r = self.r
        u = Unpack([a, b], E(r.choice(['(%s, %s)', '[%s, %s]', '%s, %s']) % (self.intexpr(env), self.intexpr(env))))
        env[a] = env[b] = 'int'
        return u
    def quiet(self, fn, *args):
        "without traced calls: the order in which attributes and bodies are evaluated is not specified"
        p = self.p; self.p = Profile.__new__(Profile); self.p.__dict__.update(p.__dict__); self.p.trace = 0
        try: return fn(*args)
        finally: self.p = p
    def attrs(self, env, literal_only=False): return self.quiet(self._attrs, env)
    def failing(self, env):
        "an expression that fails and leaves no trace"
        self.notrace = True
        return E(self.r.choice(['1/0', '[][0]', "{}['k']", "int('z')", "None.x", "'a' + 1", '(3)(1)']))
    def _attrs(self, env):
        r = self.r; out = []; names = ['id', 'title', 'href', 'data-x', 'ą:b', 'style', 'alt']
        if r.random() >= self.p.attrs: return out
        for _ in range(r.choice([0, 1])): out.append(('class', Lit(r.choice(['c1', 'c-2', 'big'])), 'short'))
        cls = False
        for _ in range(r.choice([0, 1, 1, 2])):
            if names and r.random() < .85: n = names.pop(r.randrange(len(names)))
            elif out and not cls: n = 'class'; cls = True
            else: continue
            k = r.random()
            if r.random() < self.p.attrfail: out.append((n, self.failing(env), 'brace'))
            elif k < self.p.bool_attr and n != 'class': out.append((n, E(r.choice(['True', 'False'])), 'brace'))
            elif k < .5:
                v = self.strexpr({}, 0)
                if '\\' in v or '$' in v or '{' in v: v = "'q'"
                out.append((n, E(v), 'lit'))
            elif n == 'class': out.append((n, E(self.strexpr(env)), 'brace'))
            else:
                e, t = self.any(env)
                out.append((n, e, 'name' if e.isname() and r.random() < .6 else 'brace'))
        return out
    def b_tags(self, env, tags, depth, control):
        r = self.r
        chain = []
        for _ in range(r.choice([1, 1, 1, 2, 3])): chain.append((r.choice(TAGNAMES), self.attrs(env)))
        if r.random() < self.p.nullchain: chain = [('.', [])]
        elif r.random() < self.p.void:
            chain.append((r.choice(['br', 'img', 'hr', 'INPUT']), self.attrs(env)))
            if r.random() < .7: return Tags(chain)
        return self.with_body(chain, env, tags, depth, control)
    def with_body(self, chain, env, tags, depth, control):
        r = self.r; inner = env.scope(); itags = dict(tags)
        k = r.random()
        if k < .1: t = Tags(chain, None, '' if r.random() < .7 else r.choice([' -- c', '  # c', ' --c', ' --', ' #']))
        elif k < .45: t = Tags(chain, ('text', self.text(inner)))
        else:
            h = self.text(inner, kind=r.choice('||/!'), head_only=True) if r.random() < .2 else None
            t = Tags(chain, ('blocks', h, self.body(inner, itags, depth - 1, control=control)))
            t.colon = r.choice(['', ':', ''])
            if not h and r.random() < .1: t.comment = r.choice([' -- note', ' --', '  #'])
        return t
    def clause(self, env, tags, depth):
        r = self.r
        k = r.random()
        if k < .08: return None
        if k < .25: return ('text', self.text(env))
        b = self.body(env, tags, depth - 1, control=True); b.colon = r.random() < .7
        return ('blocks', b)
    def merge(self, env, branches, sure):
        "variables visible after a control block: those of `sure` branches (all of which define it with the same type)"
        if not sure: return
        common = set(branches[0])
        for b in branches[1:]: common &= set(b)
        for n in common:
            if n not in env and len({b[n] for b in branches}) == 1: env[n] = branches[0][n]
        for n in list(env):
            if any(b.get(n) != env[n] for b in branches): env.pop(n)
    def conflict(self, env, branches):
        "a variable that got another type in a branch can't be used later"
        for n in list(env):
            if any(b.get(n) != env[n] for b in branches): env.pop(n)
    def b_if_(self, env, tags, depth, control):
        r = self.r; clauses = []; envs = []
        for _ in range(r.choice([1, 1, 2, 3])):
            c = E(self.boolexpr(env)); e2 = env.fork(); envs.append(e2)
            clauses.append((c, self.clause(e2, tags, depth)))
        else_ = None
        if r.random() < .5:
            e2 = env.fork(); envs.append(e2); else_ = (self.clause(e2, tags, depth),)
        self.conflict(env, envs)
        self.merge(env, envs, else_ is not None)
        return If(clauses, else_)
    def b_for_(self, env, tags, depth, control):
        r = self.r; e2 = env.fork()
        n = r.choice([0, 1, 1, 2, 3])
        if r.random() < .2:
            a, b = self.fresh(), self.fresh(); e2[a] = e2[b] = 'int'; targets = [a, b]
            e = E('[%s]' % ', '.join('(%d, %d)' % (r.randrange(9), r.randrange(9)) for _ in range(n)))
        else:
            a = self.fresh(); e2[a] = 'int'; targets = a
            items = '[%s]' % ', '.join(str(r.randrange(9)) for _ in range(n))
            e = E(r.choice(['%s', '%s', "mk('tuple', %s)", "mk('iter', %s)", "mk('gen', %s)", "gen('g" + str(self.uid) + "', %s)"]) % items)
        body = self.clause(e2, tags, depth)
        else_ = None; e3 = env.fork()
        if r.random() < .3: else_ = (self.clause(e3, tags, depth),)
        self.conflict(env, [e2, e3])
        if isinstance(targets, str) and n: env[targets] = 'int'
        f = For(targets, e, body, else_)
        if isinstance(targets, str) is False: f.targets = targets
        return f
    def b_while_(self, env, tags, depth, control):
        r = self.r; e2 = env.fork()
        c = E("upto('%s', %d)" % (self.id(), r.choice([0, 1, 2, 3])))
        body = self.clause(e2, tags, depth)
        else_ = None; e3 = env.fork()
        if r.random() < .3: else_ = (self.clause(e3, tags, depth),)
        self.conflict(env, [e2, e3])
        return While(c, body, else_)
    def b_try_(self, env, tags, depth, control):
        r = self.r; p = self.p
        old = p.fail, p.none
        envs = []
        self.p = Profile.__new__(Profile); self.p.__dict__.update(p.__dict__)
        self.p.fail = max(p.fail, .25); self.p.none = max(p.none, .04); self.p.attrfail = p.attrfail or .03; self.p.badbind = .15
        try:
            if r.random() < .3:
                e2 = env.fork()
                if r.random() < .4: s = self.text(e2)
                else: s = self.b_tags(e2, tags, depth - 1, True)
                return Try([], s)
            clauses = []
            for _ in range(r.choice([1, 2, 2, 3])):
                e2 = env.fork(); envs.append(e2); c = self.clause(e2, tags, depth)
                while c is None: e2 = envs[-1] = env.fork(); c = self.clause(e2, tags, depth)       # an empty body isn't recorded in the AST
                clauses.append(c)
        finally: self.p = p
        self.conflict(env, envs)
        return Try(clauses)
    def b_def_(self, env, tags, depth, control):
        r = self.r; name = self.fresh('H')
        bodyname = self.fresh('body') if r.random() < .6 else None
        params = []; inner = env.scope()
        for i in range(r.choice([0, 1, 1, 2])):
            if params and params[-1][1]: d = True
            else: d = r.random() < .5
            n = self.fresh('a') if r.random() < .8 or not env else self.fresh('a')
            params.append((n, E(self.quiet(self.strexpr, env, 1)) if d else None))
        for n, d in params: inner[n] = 'str'
        itags = dict(tags)
        bud = self.budget
        if bodyname is None and r.random() < .3: body = ('text', self.text(inner))
        else:
            b = self.body(inner, itags, depth - 1)
            if bodyname:
                for _ in range(r.choice([0, 1, 1, 2])): self.insert_embed(b, bodyname)
            body = ('blocks', b)
        tags[name] = (params, bodyname)
        return Def(name, bodyname, params, body)
    def insert_embed(self, body, name, ):
        "inserts @ name somewhere in the body of a definition, where the name is not hidden"
        r = self.r
        places = [body]
        def walk(b):
            for x in b.blocks:
                if isinstance(x, Tags) and x.body and x.body[0] == 'blocks': places.append(x.body[2]); walk(x.body[2])
                elif isinstance(x, Tags) and x.body is None and x.chain[-1][0] not in VOID and x.chain[-1][0] != 'INPUT' and not x.comment and not self.is_use(x): places.append(x)
                elif isinstance(x, If):
                    for _, c in x.clauses:
                        if c and c[0] == 'blocks': places.append(c[1]); walk(c[1])
                elif isinstance(x, For) and x.body and x.body[0] == 'blocks': places.append(x.body[1]); walk(x.body[1])
        walk(body)
        b = r.choice(places)
        if isinstance(b, Tags): b.body = ('embed', name); return
        e = Embed(name)
        if r.random() < self.p.blank: e.blank = 1
        b.blocks.insert(r.randrange(len(b.blocks) + 1), e)
    def is_use(self, x): return any(n.startswith('H') for n, _ in x.chain)
    def b_use(self, env, tags, depth, control):
        r = self.r
        name = r.choice(list(tags)); params, bodyname = tags[name]
        attrs = []
        kw = False
        for n, d in params:
            if d is not None and r.random() < .5: kw = True; continue
            if r.random() < .4: kw = True
            e = E(self.quiet(self.strexpr, env)) if r.random() >= self.p.attrfail else self.failing(env)
            attrs.append((n if kw else None, e, 'brace'))
        if kw:
            pos = [a for a in attrs if a[0] is None]; named = [a for a in attrs if a[0]]
            r.shuffle(named); attrs = pos + named
        if r.random() < self.p.badbind:
            self.notrace = True
            k = r.random()
            if attrs and k < .4: attrs.pop()
            elif k < .7: attrs.append(('zz', E('1'), 'brace'))
            elif not any(a[0] for a in attrs): attrs += [(None, E(str(i)), 'brace') for i in range(len(params) - len(attrs) + 1)]
        chain = [(name, attrs)]
        if r.random() < .3: chain = [(r.choice(TAGNAMES), [])] + chain
        if bodyname: return self.with_body(chain, env, tags, depth if self.budget > 0 else 0, control) if depth > 0 else Tags(chain, ('text', self.text(env)) if r.random() < .7 else None)
        return Tags(chain, None)
    def program(self):
        r = self.r
        env, tags = Env(), {}
        base = self.indent() if r.random() < self.p.base else ''
        bl = self.blocks(env, tags, self.p.depth, n=r.choice([1, 2, 3, 4]))
        return Program(Body(base, bl), trailing=r.choice([1, 2]) if r.random() < self.p.trailing else 0)

def merge_lits(ps):
    out = []
    for p in ps:
        if isinstance(p, Lit) and out and isinstance(out[-1], Lit): out[-1] = Lit(out[-1].s + p.s)
        elif isinstance(p, Lit) and out and p.s[:1] in ('?', '!'): out.append(Lit(' ' + p.s))         # it would be a qualifier
        else: out.append(p)
    return out

def general(profile):
    def gen(r, size):
        g = Gen(r, size, profile)
        c = case_of(g.program())
        if g.notrace: del c['trace']
        return c
    return gen
