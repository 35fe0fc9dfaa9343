"""
Names: random programs over a small pool of names, against a reference resolver written from the documentation. The resolver assigns
every occurrence of a name to a definition before anything is executed; execution then only follows these links.
"""
from .common import *
from .expr import Rec
import json

import builtins as _b
FIRST = dir(_b)[0]              # the first built-in symbol of all
BUILTINS_ = ['len', FIRST]
VARS_ = ['x', '_y', 'is_z', 'len', FIRST]
TAGS_ = ['Pa', 'Qa', 'b', 'x']
class Static(Exception): pass
class Unbound(Exception): pass
class Fail(Exception): pass

# ------------------------------------------------------------------------------------------------- generator
class G:
    def __init__(self, r, size, bad): self.r, self.size, self.bad, self.n, self.budget = r, size, bad, 0, 4 + size * 4
    def num(self): self.n += 1; return self.n
    def name(self, sc): 
        r = self.r; vis = [n for n in VARS_ if n in sc['vis']]
        if vis and r.random() > self.bad: return r.choice(vis)
        return r.choice(VARS_)
    def blocks(self, sc, d, control=0):
        n = self.r.choice([1, 2, 2, 3, 4] if d > 1 else [1, 2])
        return [b for b in (self.block(sc, d, control) for _ in range(n)) if b]
    def val(self, sc):
        if self.r.random() < .25: return ['read', self.name(sc)]
        return self.num()
    def sub(self, sc): return dict(vis=set(sc['vis']), own=set(), tags=set(sc['tags']))
    def branch(self, sc): return dict(vis=set(sc['vis']), own=set(sc['own']), tags=set(sc['tags']), outer=set(sc['vis']) - set(sc['own']) | set(sc.get('outer', ())))
    def target(self, sc):
        c = [n for n in VARS_ if n not in sc.get('outer', ())]          # see known-findings.txt: reassignment of an outer variable in a branch
        return self.r.choice(c) if c else None
    def define(self, sc, n): sc['vis'].add(n); sc['own'].add(n)
    def block(self, sc, d, control):
        r = self.r; self.budget -= 1
        k = r.random()
        if d <= 0 or self.budget < 0: k *= .45
        if k < .17:
            v = self.val(sc); n = self.target(sc)
            if n is None: return None
            self.define(sc, n); return ['set', n, v]
        if k < .21:
            n = self.name(sc)
            if n in sc.get('outer', ()): return None
            self.define(sc, n); return ['inc', n]
        if k < .24:
            a, b = self.target(sc), self.target(sc)
            if a is None or a == b: return None
            self.define(sc, a); self.define(sc, b); return ['unpack', a, b, self.num(), self.num()]
        if k < .4: return ['show', self.name(sc), r.choice(['', '', '?'])]
        if k < .42: return ['fail'] if control and r.random() < .5 else ['show', self.name(sc), '?']
        if k < .45: return self.use(sc, d, control)
        if k < .6: 
            attr = self.name(sc) if r.random() < .3 else None
            s = self.sub(sc); return ['div', attr, self.blocks(s, d - 1, control)]
        if k < .68:
            cl = []; 
            for _ in range(r.choice([1, 1, 2])):
                s = self.branch(sc); cl.append([r.choice([0, 1]), self.blocks(s, d - 1, control + 1)])
            el = self.blocks(self.branch(sc), d - 1, control + 1) if r.random() < .5 else None
            for c in cl + ([[0, el]] if el else []): sc['vis'] |= assigned(c[1]); sc['own'] |= assigned(c[1])
            return ['if', cl, el]
        if k < .74:
            cl = [self.blocks(self.branch(sc), d - 1, control + 1) or [['show', 'len', '?']] for _ in range(r.choice([1, 2]))]
            for c in cl: sc['vis'] |= assigned(c); sc['own'] |= assigned(c)
            return ['try', cl]
        if k < .81:
            n = self.target(sc)
            if n is None: return None
            rd = self.name(sc) if r.random() < .3 else None
            self.define(sc, n)
            bl = self.blocks(sc, d - 1, control + 1); el = self.blocks(sc, d - 1, control + 1) if r.random() < .3 else None
            return ['for', n, r.choice([0, 1, 2]), bl, el, rd]
        if k < .85:
            bl = self.blocks(self.branch(sc), d - 1, control + 1)
            sc['vis'] |= assigned(bl); sc['own'] |= assigned(bl)
            return ['while', self.num(), r.choice([0, 1, 2]), bl]
        if k < .93 and not control:
            t = r.choice(TAGS_); ps = r.sample(VARS_[:3], r.choice([0, 1, 1, 2]))
            ds = [self.name(sc) if r.random() < .3 else None for _ in ps]
            s = self.sub(sc); s['vis'] |= set(ps); s['own'] |= set(ps)
            bl = self.blocks(s, d - 1, 0) or [['show', 'len', '?']]
            sc['tags'].add(t); self.arity = getattr(self, 'arity', {}); self.arity[t] = len(ps)
            return ['def', t, ps, ds, bl]
        return self.use(sc, d, control)
    def use(self, sc, d, control):
        t = self.r.choice(TAGS_[:3] if self.r.random() < self.bad else sorted(sc['tags']) or TAGS_[2:3])
        return ['use', t, self.num(), self.r.choice([None, None, self.name(sc)])]

def assigned(bl):
    out = set()
    for b in bl or ():
        if b[0] in ('set', 'inc'): out.add(b[1])
        elif b[0] == 'unpack': out |= {b[1], b[2]}
        elif b[0] == 'if': 
            for _, c in b[1]: out |= assigned(c)
            out |= assigned(b[2])
        elif b[0] == 'try':
            for c in b[1]: out |= assigned(c)
        elif b[0] == 'for': out |= {b[1]} | assigned(b[3]) | assigned(b[4])
        elif b[0] == 'while': out |= assigned(b[3])
    return out

# ------------------------------------------------------------------------------------------------- script
def write(bl, ind, out, u):
    for b in bl:
        k = b[0]
        v = lambda v: v[1] if isinstance(v, list) else "t(%d, %d)" % (v, v)
        if k == 'set': out.append('%s$%s = %s' % (ind, b[1], v(b[2])))
        elif k == 'inc': out.append('%s$%s += 1000' % (ind, b[1]))
        elif k == 'unpack': out.append('%s$ %s, %s = t(%d, %d), t(%d, %d)' % (ind, b[1], b[2], b[3], b[3], b[4], b[4]))
        elif k == 'show': out.append('%s| =%s{%s}%s' % (ind, b[1], b[1], b[2]))
        elif k == 'fail': out.append("%s$ boom('f')" % ind)
        elif k == 'div': out.append('%sdiv%s' % (ind, ' title={put(%s)}' % b[1] if b[1] else '')); write(b[2], ind + '  ', out, u)
        elif k == 'if':
            for i, (c, x) in enumerate(b[1]): out.append('%s%s %d' % (ind, 'elif' if i else 'if', c)); write(x or [['nop']], ind + '  ', out, u)
            if b[2]: out.append(ind + 'else'); write(b[2], ind + '  ', out, u)
        elif k == 'try':
            for i, x in enumerate(b[1]): out.append(ind + ('else' if i else 'try')); write(x, ind + '  ', out, u)
        elif k == 'for':
            out.append('%sfor %s in %s' % (ind, b[1], '[%s, 200][:%d]' % (b[5], b[2]) if b[5] else [[], [100], [100, 200]][b[2]])); write(b[3] or [['nop']], ind + '  ', out, u)
            if b[4]: out.append(ind + 'else'); write(b[4], ind + '  ', out, u)
        elif k == 'while': out.append("%swhile upto('w%d', %d)" % (ind, b[1], b[2])); write(b[3] or [['nop']], ind + '  ', out, u)
        elif k == 'def':
            out.append('%s%%%s%s' % (ind, b[1], ''.join(' %s=%s' % (p, '{%s}' % d if d else "'d'") for p, d in zip(b[2], b[3])))); write(b[4], ind + '  ', out, u)
        elif k == 'use':
            t = b[1]; n = u.get(id(b), 0)
            out.append(ind + t + (' {%s}' % (b[3] or b[2]) if n else ''))
        elif k == 'nop': out.append(ind + 'pass')
    return out

# ------------------------------------------------------------------------------------------------- reference
class Slot:
    def __init__(self, scope): self.scope = scope
class Resolver:
    def __init__(self): self.links = {}; self.uses = {}
    def look(self, scope, names, n):
        for d in reversed(names):
            if n in d: return d[n]
    def run(self, bl, scope, V, T):
        "V, T: lists of dicts (innermost last): names of variables, of tags"
        for b in bl: self.block(b, scope, V, T)
    def read(self, b, key, V, n):
        s = self.look(None, V, n)
        if s is None: raise Static(n)
        self.links[id(b), key] = s
    def write(self, b, key, scope, V, n):
        s = self.look(None, V, n)
        if s is None or s.scope is not scope: s = V[-1][n] = Slot(scope)
        self.links[id(b), key] = s
    def branches(self, bls, scope, V, T):
        for bl in bls:
            V2 = V + [{}]
            self.run(bl or [], scope, V2, T)
            for n, s in V2[-1].items():
                if self.look(None, V, n) is None: V[-1][n] = s
    def block(self, b, scope, V, T):
        k = b[0]
        if k == 'set':
            if isinstance(b[2], list): self.read(b, 'r', V, b[2][1])
            self.write(b, 'w', scope, V, b[1])
        elif k == 'inc': self.read(b, 'r', V, b[1]); self.write(b, 'w', scope, V, b[1])
        elif k == 'unpack': self.write(b, 'w', scope, V, b[1]); self.write(b, 'w2', scope, V, b[2])
        elif k == 'show': self.read(b, 'r', V, b[1])
        elif k == 'div':
            if b[1]: self.read(b, 'r', V, b[1])
            self.run(b[2], object(), V + [{}], T + [{}])
        elif k == 'if': self.branches([c for _, c in b[1]] + ([b[2]] if b[2] else []), scope, V, T)
        elif k == 'try': self.branches(b[1], scope, V, T)
        elif k == 'while': self.branches([b[3]], scope, V, T)
        elif k == 'for':
            if b[5]: self.read(b, 'r', V, b[5])
            self.write(b, 'w', scope, V, b[1]); self.run(b[3], scope, V, T)
            if b[4]: self.run(b[4], scope, V, T)
        elif k == 'def':
            inner = object(); V2 = V + [{}]
            for i, d in enumerate(b[3]):
                if d: self.read(b, 'd%d' % i, V, d)
            for p in b[2]: V2[-1][p] = Slot(inner)
            self.links[id(b), 'params'] = [V2[-1][p] for p in b[2]]
            self.run(b[4], inner, V2, T + [{}])
            T[-1][b[1]] = b
        elif k == 'use':
            t = self.look(None, T, b[1])
            if t is None: raise Static(b[1])
            self.links[id(b), 't'] = t
            n = len(t[2]) if t is not BUILTIN else 0
            if n: self.uses[id(b)] = 1
            if b[3] and n: self.read(b, 'r', V, b[3])
BUILTIN = ['builtin', 'b', []]

class Exec:
    def __init__(self, links): self.L = links; self.val = {}; self.epoch = {}; self.inst = 0; self.out = []; self.trace = []; self.count = {}
    def get(self, slot, live):
        if slot not in self.val: raise Unbound()
        v, e = self.val[slot]
        if e not in live: raise Skip()                  # a value from a former execution of the same block: unspecified
        return v
    def run(self, bl, me, live):
        out = []
        for b in bl or []: out += self.block(b, me, live) or []
        return out
    def block(self, b, me, live):
        "-> list of shown items"
        k = b[0]; L = self.L; i = id(b)
        def put(key, v): self.val[L[i, key]] = (v, me)
        def t(v): self.trace.append(v); return v
        if k == 'set': put('w', self.get(L[i, 'r'], live) if isinstance(b[2], list) else t(b[2]))
        elif k == 'inc':
            v = self.get(L[i, 'r'], live)
            if not isinstance(v, int): raise Fail()
            put('w', v + 1000)
        elif k == 'unpack': t(b[3]); t(b[4]); put('w', b[3]); put('w2', b[4])
        elif k == 'show':
            try: v = self.get(L[i, 'r'], live)
            except Unbound:
                if b[2]: return ['=' + b[1]]
                raise
            return ['=%s%s' % (b[1], (v or '') if b[2] else v)]
        elif k == 'fail': self.trace.append('f'); raise Fail()
        elif k == 'div':
            self.inst += 1; n = self.inst
            out = self.run(b[2], n, live | {n})
            if b[1]: out = [['attr', self.get(L[i, 'r'], live)]] + out
            return out
        elif k == 'if':
            for c, bl in b[1]:
                if c: return self.run(bl, me, live)
            return self.run(b[2], me, live)
        elif k == 'try':
            for bl in b[1]:
                try: return self.run(bl, me, live)
                except Skip: raise
                except Exception: pass
        elif k == 'while':
            out = []
            while True:
                w = 'w%d' % b[1]; self.trace.append(w); c = self.count.get(w, 0); self.count[w] = 0 if c >= b[2] else c + 1
                if c >= b[2]: return out
                out += self.run(b[3], me, live)
        elif k == 'for':
            out = []
            for v in [self.get(L[i, 'r'], live) if b[5] else 100, 200][:b[2]]: put('w', v); out += self.run(b[3], me, live)
            if not b[2] and b[4]: out = self.run(b[4], me, live)
            return out
        elif k == 'def':
            self.inst += 0; self.val[i] = live
        elif k == 'use':
            d = L[i, 't']
            if d is BUILTIN: return ['<b></b>']
            saved = dict(self.val)
            self.inst += 1; n = self.inst
            dl = self.val[id(d)]
            try:
                args = [self.get(L[i, 'r'], live) if b[3] else b[2]] if d[2] else []
                for j, s in enumerate(L[id(d), 'params']):
                    if j < len(args): v = args[j]
                    elif d[3][j]: v = self.get(L[id(d), 'd%d' % j], dl)
                    else: v = 'd'
                    self.val[s] = (v, n)
                return self.run(d[4], n, dl | {n})
            finally: self.val = saved

@suite('C13', 'scopes', 3)
def scopes(r, size):
    g = G(r, size, r.choice([0., 0, .05, .3])); sc = dict(vis=set(BUILTINS_), own=set(BUILTINS_), tags=set())
    return dict(prog=g.blocks(sc, 4))
def check_scopes(case):
    prog = case['prog']
    R = Resolver(); top = object()
    error = None
    try: R.run(prog, top, [{n: Slot(top) for n in BUILTINS_}], [{'b': BUILTIN}])
    except Static as e: error = e
    if error is not None: return check_static(prog, R, error)
    X = Exec(R.links)
    builtin_len = [s for (i, k), s in R.links.items() if isinstance(s, Slot)]
    script = 'context $t, $boom, $upto, $put\n' + '\n'.join(write(prog, '', [], R.uses)) + '\n| end'
    # built-in `len`
    want = None
    V = {}
    R = Resolver(); top = object(); bl = {n: Slot(top) for n in BUILTINS_}; R.run(prog, top, [dict(bl)], [{'b': BUILTIN}])
    X = Exec(R.links)
    for n in bl: X.val[bl[n]] = (Builtin(n), 0)
    try: want = X.run(prog, 0, {0})
    except Unbound: want = 'UnboundLocalError'
    except Fail: want = '*'
    h = Rec(); attrs = []
    def put(v): attrs.append(v); return str(v)
    env = dict(t=h.t, boom=h.boom, upto=h.upto, put=put)
    r = observe(lambda: runtime().render(script, **env))
    if isinstance(want, str):
        if 'error' not in r: return 'rendered %r, expected %s\n%s' % (r['out'], want, script)
        if want != '*' and want not in r['error']: return 'raised %s: %s, expected %s\n%s' % (r['error'][0], r['msg'], want, script)
    else:
        if 'error' in r: return 'raised %s: %s\n%s' % (r['error'][0], r['msg'], script)
        got = [l.strip() for l in r['out'].split('\n')]
        got = [l.replace('&lt;', '<').replace('&gt;', '>') for l in got if l.startswith('=') or l == '<b></b>' or 'title=' in l]
        flat = ['<div title="%s">' % x[1] if isinstance(x, list) else x for x in want]
        got = [l.split('</')[0] if 'title=' in l else l for l in got]
        if got != flat: return 'rendered %r, expected %r\n%s' % (got, flat, script)
    if h.trace != X.trace: return 'calls %r, expected %r\n%s' % (h.trace, X.trace, script)
class Builtin:
    def __init__(self, name): self.name = name
    def __str__(self): return str(getattr(_b, self.name))

def check_static(prog, R, error):
    uses = {}
    script = 'context $t, $boom, $upto, $put\n' + '\n'.join(write(prog, '', [], R.uses)) + '\n| end'
    h = Rec()
    env = dict(t=h.t, boom=h.boom, upto=h.upto, put=lambda v: h.trace.append('put') or '')
    r = observe(lambda: runtime().render(script, **env))
    if 'error' not in r: return 'rendered %r though %s is not defined\n%s' % (r['out'], error, script)
    if 'NameError' not in r['error']  and not r['error'][0].startswith('Undefined'): return 'raised %s: %s though %s is not defined\n%s' % (r['error'][0], r['msg'], error, script)
    if h.trace: return 'an undefined name %s was reported after the script was partially executed: %r\n%s' % (error, h.trace, script)
SUITES['C13'][0] = SUITES['C13'][0][:3] + (check_scopes,)

@suite('C13', 'reassigned', 0)
def reassigned(r, size):
    "variables of an outer scope reassigned in a branch: the recorded finding, only replayed"
    raise Skip

from .gen import *
suite('C13', 'programs', 1)(general(Profile(weights=dict(def_=2, use=3, tags=5, text=4, if_=1.5, for_=1, while_=.6, assign=4, inplace=2, try_=.5), attrs=.3, depth=6, expr=.7)))
