"""
Reference model of Hypertag scripts: abstract programs that write themselves as a script and evaluate themselves to an expected
document, an expected sequence of calls, or an expected error. Written from the documentation, independent of the code under test:
scopes are chains of dicts, expressions are evaluated by Python itself, layout is computed by prefixing lines.
"""
from .common import Helpers, Skip, LIMIT, exc_names

class UndefinedTagEx(Exception): pass
class VoidTagEx(Exception): pass
class NoneStringEx(Exception): pass
class FalseValueEx(Exception): pass
class Binding(TypeError): "attributes don't match those declared"

# ------------------------------------------------------------------------------------------------- documents

def shift(text, prefix):
    "indents all lines but the first one; empty lines stay empty"
    first, *rest = text.split('\n')
    return '\n'.join([first] + [prefix + l if l else l for l in rest])

class Node:
    def __init__(self, text=None, kids=None, expand=None, rel=None, name=None, margin=False, attrs=None):
        self.text, self.kids, self.expand, self.rel, self.name, self.margin, self.attrs = text, kids, expand, rel, name, margin, attrs
        self.outline = False
    def render(self):
        if self.text is not None: s = self.text
        elif self.expand: s = self.expand(self.kids)
        else: s = render_nodes(self.kids)
        if self.outline: s = '\n' + s
        return shift(s, self.rel) if self.rel else s
    def copy(self):
        n = Node.__new__(Node); n.__dict__.update(self.__dict__)
        if self.kids is not None: n.kids = [k.copy() for k in self.kids]
        return n
def render_nodes(nodes): return ''.join(n.render() for n in nodes)
def set_rel(nodes, rel):
    for n in nodes: n.rel = rel
def set_outline(nodes, v=True):
    for n in nodes:
        if not n.margin: n.outline = v; return

def escape(s): return ''.join({'&': '&amp;', '<': '&lt;', '>': '&gt;'}.get(c, c) for c in s)
def quote(s):
    "value of an attribute: an HTML parser must read back `s`"
    for a, b in (('&', '&amp;'), ('>', '&gt;'), ('<', '&lt;'), ('\n', '&#10;'), ('\r', '&#13;'), ('\t', '&#9;')): s = s.replace(a, b)
    if '"' in s and "'" not in s: return "'%s'" % s
    return '"%s"' % s.replace('"', '&quot;')

def html_attrs(kw):
    out = ''
    for k, v in kw.items():
        if v is True: out += ' ' + k
        elif v is False: pass
        else: out += ' %s=%s' % (k, quote(str(v)))
    return out
def element(name, kw):
    def expand(kids):
        body = render_nodes(kids)
        return '<%s%s>%s%s</%s>' % (name, html_attrs(kw), body, '\n' if body.startswith('\n') else '', name)
    return expand
def void_element(name, kw):
    def expand(kids):
        if render_nodes(kids): raise VoidTagEx(name)
        return '<%s%s />' % (name, html_attrs(kw))
    return expand

# ------------------------------------------------------------------------------------------------- scopes

UNSET = object(); SKIP = object()
class Scope:
    def __init__(self, parent=None, vars=None):
        self.parent = parent; self.vars = dict(vars or {}); self.tags = {}
    def find(self, name):
        s = self
        while s is not None:
            if name in s.vars: return s
            s = s.parent
        return None
    def __getitem__(self, name):
        s = self.find(name)
        if s is None: raise KeyError(name)
        v = s.vars[name]
        if v is SKIP: raise Skip
        if v is UNSET: raise UnboundLocalError(name)
        return v
    def __contains__(self, name): return self.find(name) is not None
    def __setitem__(self, name, v): self.vars[name] = v
    def tag(self, name):
        s = self
        while s is not None:
            if name in s.tags: return s.tags[name]
            s = s.parent
        return None
    def declare(self, names):
        "the names are assigned in a branch that may not have been executed"
        for n in names:
            if n in self.vars: continue
            self.vars[n] = SKIP if n in self else UNSET

class Names:
    "read access of Python's eval() to a scope"
    def __init__(self, scope): self.scope = scope
    def __getitem__(self, n): return self.scope[n]

class E:
    "an expression: the same text in Hypertag and in Python, unless `py` is given"
    def __init__(self, src, py=None, q='', names=()): self.src, self.py, self.q = src, py or src, q
    def value(self, scope):
        try: v = eval(self.py, {}, Names(scope))
        except Exception as ex:
            if isinstance(ex, Skip): raise
            if self.q == '?': return ''
            raise
        if v or not self.q: return v
        if self.q == '?': return ''
        raise FalseValueEx(self.src)
    def brace(self):
        s = self.src
        return '{%s%s%s}%s' % (' ' if s.startswith('{') else '', s, ' ' if s.endswith('}') else '', self.q)
    def factor(self): return '(%s)%s' % (self.src, self.q)
    def isname(self): return self.src.isidentifier()

class Lit(E):
    "a static string in a text"
    def __init__(self, s): self.s = s

# ------------------------------------------------------------------------------------------------- writer

class Writer:
    def __init__(self): self.lines = []
    def line(self, ind, s): self.lines.append(ind + s)
    def blank(self, n): self.lines += [''] * n

# ------------------------------------------------------------------------------------------------- blocks

class Block:
    blank = 0           # empty lines before the block
    mod = ''            # '', '<' or '...'
    def assigned(self): return []
    def head(self): return {'': '', '<': '< ', '...': '... '}[self.mod]

class Body:
    "blocks on following lines, indented by `w` relative to the parent"
    def __init__(self, w, blocks): self.w, self.blocks = w, blocks
    def write(self, wr, ind):
        for b in self.blocks:
            wr.blank(b.blank); b.write(wr, ind + self.w, b.head())
    def ev(self, scope):
        out = []
        for b in self.blocks:
            if b.blank: out.append(Node(text='\n' * b.blank, margin=True))
            nodes = b.ev(scope)
            if not nodes: continue
            set_rel(nodes, self.w)
            if b.mod != '...': set_outline(nodes)
            if b.mod == '<': set_rel(nodes, '')
            out += nodes
        return out
    def assigned(self): return [n for b in self.blocks for n in b.assigned()]

class Text(Block):
    """
    kind: | / !   lines: [(indentation relative to the block's line or None for an empty line, [pieces])], the first one is the headline
    """
    def __init__(self, kind, lines): self.kind, self.lines = kind, lines
    def source(self, pieces):
        out = ''
        for i, p in enumerate(pieces):
            if isinstance(p, Lit): out += p.s if self.kind == '!' else p.s.replace('$', '$$').replace('{', '{{').replace('}', '}}')
            else:
                nxt = pieces[i + 1] if i + 1 < len(pieces) else None
                follow = nxt.s[:1] if isinstance(nxt, Lit) else ''
                short = getattr(p, 'short', False) and p.isname() and not (follow.isalnum() or follow in ('_', '.', '[', '(', '?', '!') and follow) and not (nxt is not None and not isinstance(nxt, Lit))
                out += '$' + p.src + p.q if short and not (p.q and False) else p.brace()
        return out
    def render(self, scope, pieces):
        out = ''
        for p in pieces:
            if isinstance(p, Lit): out += p.s
            else:
                v = p.value(scope)
                if v is None: raise NoneStringEx()
                out += str(v)
        return escape(out) if self.kind == '|' else out
    def write(self, wr, ind, head=''):
        self.lead = len(head) + 1
        wr.line(ind, head + self.kind + self.source(self.lines[0][1]))
        for rel, pieces in self.lines[1:]:
            wr.line('' if rel is None else ind, '' if rel is None else rel + self.source(pieces))
    def ev(self, scope):
        return [Node(text=self.layout([(rel, self.render(scope, ps) if rel is not None or i == 0 else '') for i, (rel, ps) in enumerate(self.lines)]))]
    def layout(self, lines):
        body = lines[0][1] + ''.join('\n' if rel is None else '\n' + rel + s for rel, s in lines[1:])
        return layout_text(self.lead, body)

def layout_text(lead, body):
    "drops the margin shared by all lines, the headline being placed at column `lead`; at most 1 character more than the lead"
    lines = (' ' * lead + body).split('\n')
    full = [l.rstrip() for l in lines if l.strip()]
    n = 0
    while full and n <= lead and all(len(l) > n for l in full) and full[0][n].isspace() and len({l[n] for l in full}) == 1: n += 1
    margin = full[0][:n] if full else ''
    lines = [l[n:] if margin and l.startswith(margin) else l for l in lines]
    if n < lead:
        h = lines[0][lead - n:]
        lines[0] = h[1:] if h.startswith(' ') else h
    if body.startswith('\n'): lines[0] = ''
    return '\n'.join(lines)

class Tags(Block):
    """
    chain: [(name, [(attr name or None, E or literal value, form)])];  body: None | ('text', Text) | ('blocks', headline Text or None, Body) | ('embed', name)
    """
    colon = ''
    def __init__(self, chain, body=None, comment=''): self.chain, self.body, self.comment = chain, body, comment
    def write(self, wr, ind, head=''):
        s = head + ' : '.join(self.tagsrc(n, a) for n, a in self.chain) if self.colon == ' ' else head + ': '.join(self.tagsrc(n, a) for n, a in self.chain)
        b = self.body
        if b is None: wr.line(ind, s + self.comment)
        elif b[0] == 'text': b[1].write(wr, ind, s + ' ')
        elif b[0] == 'embed': wr.line(ind, s + ' @ ' + b[1])
        else:
            if b[1]: wr.line(ind, s + ': ' + b[1].kind + b[1].source(b[1].lines[0][1]))
            else: wr.line(ind, s + (self.colon and ':') + self.comment)
            b[2].write(wr, ind)
    def tagsrc(self, name, attrs):
        out = name
        for a, e, form in attrs:
            if form == 'short': out += '.' + e.s; continue           # only right after the name or another shortcut
            out += ' ' + ('%s=' % a if a else '') + self.valsrc(e, form)
        return out
    def valsrc(self, e, form):
        if form == 'name': return '$' + e.src + e.q
        if form == 'lit': return e.src + e.q
        return e.brace()
    def ev(self, scope):
        inner = Scope(scope)
        b = self.body
        if b is None: nodes = []
        elif b[0] == 'text': nodes = b[1].ev(inner); set_rel(nodes, '')
        elif b[0] == 'embed': nodes = Embed(b[1]).ev(inner); set_rel(nodes, '')
        else:
            nodes = [headline(inner, b[1])] if b[1] else []
            nodes += b[2].ev(inner)
        for name, attrs in reversed(self.chain):
            pos, kw = [], {}
            for a, e, form in attrs:
                if a is None: pos.append(e.value(scope))
            for a, e, form in attrs:
                if a is None: continue
                v = e.s if form == 'short' else e.value(scope)
                kw[a] = kw[a] + ' ' + v if a in kw else v
            nodes = [expand_tag(scope, name, pos, kw, nodes)]
        return nodes

def headline(scope, text):
    s = text.render(scope, text.lines[0][1])
    return Node(text=s[1:] if text.source(text.lines[0][1])[:1] in (' ', '\t') else s)       # a gap of one space is not a part of the headline

VOID = set('area base br col command embed hr img input link meta param source track wbr'.split())
def expand_tag(scope, name, pos, kw, nodes):
    t = scope.tag(name)
    if t is not None: return t.expand(pos, kw, nodes)
    if name == '.': return Node(kids=nodes, name='null')
    if name in VOID or name.lower() in VOID: return Node(kids=nodes, expand=void_element(name, kw), name=name, attrs=kw)
    return Node(kids=nodes, expand=element(name, kw), name=name, attrs=kw)

class ExtTag:
    "an external tag passed by the caller; `render(body string, attrs, kwattrs)`"
    def __init__(self, name, render): self.name, self.render = name, render
    def expand(self, pos, kw, nodes):
        return Node(kids=nodes, expand=lambda kids: self.render(render_nodes(kids), pos, kw), name=self.name, attrs=kw)

class Def(Block):
    "hypertag definition; params: [(name, default E or None)], bodyname: name of the body attribute or None; body: ('text', Text) | ('blocks', Body)"
    def __init__(self, name, bodyname, params, body): self.name, self.bodyname, self.params, self.body = name, bodyname, params, body
    def write(self, wr, ind, head=''):
        s = head + '%' + self.name + (' @' + self.bodyname if self.bodyname else '')
        for n, d in self.params: s += ' ' + n + ('=' + (d.src if getattr(d, 'lit', False) else d.brace()) if d else '')
        if self.body[0] == 'text': self.body[1].write(wr, ind, s + ' ')
        else: wr.line(ind, s); self.body[1].write(wr, ind)
    def ev(self, scope):
        scope.tags[self.name] = Hypertag(self, scope)
        return None
    def assigned(self): return []

class Hypertag:
    def __init__(self, d, scope): self.d, self.scope = d, scope
    def bind(self, pos, kw):
        names = [n for n, _ in self.d.params]
        if len(pos) > len(names): raise Binding('too many')
        if self.d.bodyname and self.d.bodyname in kw: raise Binding('body')
        vals = {}
        for k, v in kw.items():
            if k not in names: raise Binding('unknown')
            vals[k] = v
        for n, v in zip(names, pos):
            if n in vals: raise Binding('twice')
            vals[n] = v
        for n, d in self.d.params:
            if n not in vals:
                if d is None: raise Binding('missing')
                vals[n] = d.value(self.scope)
        return vals
    def expand(self, pos, kw, nodes):
        vals = self.bind(pos, kw)
        if self.d.bodyname: vals[self.d.bodyname] = nodes
        elif nodes: raise VoidTagEx(self.d.name)
        scope = Scope(self.scope, vals)
        if self.d.body[0] == 'text': out = self.d.body[1].ev(scope)
        else: out = self.d.body[1].ev(scope)
        set_rel(out, ''); set_outline(out, False)
        return Node(kids=out, name=self.d.name, attrs=dict(kw))

class Embed(Block):
    "@ name"
    def __init__(self, name): self.name = name
    FORMS = ['@ %s', '@ %s', '@%s', '@ $%s', '@  (%s)', '@ %s -- c', '@ [%s][0]', '@ %s if True else 0', '@ 0 or %s', '@ (%s,)[0] #', '@[%s]']
    def write(self, wr, ind, head=''): wr.line(ind, head + self.FORMS[(len(wr.lines) * 7 + len(head) + len(ind)) % len(self.FORMS)] % self.name)
    def ev(self, scope):
        v = scope[self.name]
        return [n.copy() for n in v]

COMMENTS = ['', '', '', '', ' -- c', ' --', '', '  # c', '', '\t#', '']
class Assign(Block):
    def __init__(self, name, e, op=''): self.name, self.e, self.op = name, e, op
    def write(self, wr, ind, head=''): wr.line(ind, '%s$%s %s= %s%s' % (head, self.name, self.op, self.e.src, COMMENTS[(len(wr.lines) + len(ind) + len(self.name)) % len(COMMENTS)]))
    def ev(self, scope):
        v = self.e.value(scope)
        if self.op: v = eval('a %s b' % self.op, {}, dict(a=scope[self.name], b=v))
        scope[self.name] = v
    def assigned(self): return [self.name]

class Unpack(Block):
    "targets: nested lists of names"
    def __init__(self, targets, e): self.targets, self.e = targets, e
    def text(self, t):
        if isinstance(t, str): return t
        s = ', '.join(self.text(x) if isinstance(x, str) else '(%s)' % self.text(x) for x in t)
        return s + ',' if len(t) == 1 else s
    def write(self, wr, ind, head=''): wr.line(ind, '%s$ %s = %s' % (head, self.text(self.targets), self.e.src))
    def names(self, t): return [t] if isinstance(t, str) else [n for x in t for n in self.names(x)]
    def bind(self, scope, t, v):
        if isinstance(t, str): scope[t] = v; return
        n = 0
        for x in v:
            if n >= len(t): raise ValueError('too many')
            self.bind(scope, t[n], x); n += 1
        if n < len(t): raise ValueError('not enough')
    def ev(self, scope): self.bind(scope, self.targets, self.e.value(scope))
    def assigned(self): return self.names(self.targets)

class Do(Block):
    "$ expr"
    def __init__(self, e): self.e = e
    def write(self, wr, ind, head=''): wr.line(ind, head + '$ ' + self.e.src)
    def ev(self, scope): self.e.value(scope)

class Comment(Block):
    def __init__(self, text): self.text = text
    def write(self, wr, ind, head=''):
        for i, l in enumerate(self.text): wr.line(ind, (head if i == 0 else '') + l)
    def ev(self, scope): return None
class Pass(Block):
    def write(self, wr, ind, head=''): wr.line(ind, head + 'pass')
    def ev(self, scope): return None

class Clause:
    "body of a control block: None | ('text', Text) | ('blocks', Body)"
def write_clause(wr, ind, s, body, factor=True):
    if body is None: wr.line(ind, s)
    elif body[0] == 'text': body[1].write(wr, ind, s + ' ')
    else: wr.line(ind, s + (':' if getattr(body[1], 'colon', False) else '')); body[1].write(wr, ind)
def ev_clause(scope, body):
    if body is None: return []
    return body[1].ev(scope)
def assigned_clause(body): return [] if body is None or body[0] == 'text' else body[1].assigned()

class If(Block):
    "clauses: [(E, body)], else_: (body,) or None"
    def __init__(self, clauses, else_=None): self.clauses, self.else_ = clauses, else_
    def write(self, wr, ind, head=''):
        for i, (c, b) in enumerate(self.clauses):
            s = (head if i == 0 else '') + ('if ' if i == 0 else 'elif ') + (c.factor() if b and b[0] == 'text' or c.q else c.src)
            write_clause(wr, ind, s, b)
        if self.else_: write_clause(wr, ind, 'else', self.else_[0])
    def ev(self, scope):
        out = None; done = []
        for c, b in self.clauses:
            if c.value(scope):
                scope.declare(done); out = ev_clause(scope, b); break
            done += assigned_clause(b)
            scope.declare(done)
        else:
            if self.else_: out = ev_clause(scope, self.else_[0])
        scope.declare(self.assigned())
        return out
    def assigned(self):
        return [n for _, b in self.clauses for n in assigned_clause(b)] + (assigned_clause(self.else_[0]) if self.else_ else [])

class For(Block):
    def __init__(self, targets, e, body, else_=None): self.targets, self.e, self.body, self.else_ = targets, e, body, else_
    def write(self, wr, ind, head=''):
        u = Unpack(self.targets, None)
        s = '%sfor %s in %s' % (head, u.text(self.targets), self.e.factor() if self.body and self.body[0] == 'text' or self.e.q else self.e.src)
        write_clause(wr, ind, s, self.body)
        if self.else_: write_clause(wr, ind, 'else', self.else_[0])
    def ev(self, scope):
        out = []; empty = True
        u = Unpack(self.targets, None)
        seq = self.e.value(scope)
        names = self.assigned_body()
        for v in seq:
            empty = False
            u.bind(scope, self.targets, v)
            out += ev_clause(scope, self.body)
        if empty:
            for n in names:
                if n not in scope.vars: scope.vars[n] = SKIP if n in scope else UNSET
            if self.else_: out = ev_clause(scope, self.else_[0])
        scope.declare(self.assigned())
        return out
    def assigned_body(self): return Unpack(self.targets, None).names(self.targets) + assigned_clause(self.body)
    def assigned(self): return self.assigned_body() + (assigned_clause(self.else_[0]) if self.else_ else [])

class While(Block):
    def __init__(self, c, body, else_=None): self.c, self.body, self.else_ = c, body, else_
    def write(self, wr, ind, head=''):
        write_clause(wr, ind, head + 'while ' + (self.c.factor() if self.body and self.body[0] == 'text' or self.c.q else self.c.src), self.body)
        if self.else_: write_clause(wr, ind, 'else', self.else_[0])
    def ev(self, scope):
        out = []; empty = True
        while self.c.value(scope):
            empty = False
            out += ev_clause(scope, self.body)
        if empty:
            scope.declare(assigned_clause(self.body))
            if self.else_: out = ev_clause(scope, self.else_[0])
        scope.declare(self.assigned())
        return out
    def assigned(self): return assigned_clause(self.body) + (assigned_clause(self.else_[0]) if self.else_ else [])

class Try(Block):
    "clauses: bodies of try / else / else ...; short: the ?block form, with a single block"
    def __init__(self, clauses, short=None): self.clauses, self.short = clauses, short
    def write(self, wr, ind, head=''):
        if self.short is not None: self.short.write(wr, ind, head + '?'); return
        for i, b in enumerate(self.clauses): write_clause(wr, ind, (head + 'try') if i == 0 else 'else', b)
    def ev(self, scope):
        if self.short is not None:
            try: return self.short.ev(scope)
            except Skip: raise
            except Exception: return None
        out = None; done = []
        for b in self.clauses:
            try:
                out = ev_clause(scope, b); break
            except Skip: raise
            except Exception:
                done += assigned_clause(b)
                scope.declare(done)
        scope.declare(self.assigned())
        return out
    def assigned(self): return [n for b in self.clauses for n in assigned_clause(b)]

# ------------------------------------------------------------------------------------------------- programs

class Program:
    def __init__(self, body, vars=None, tags=None, trailing=0, helpers=True):
        "body: Body (its w is the indentation of the whole script); vars: decoded python values by name; tags: {name: (kind, render)}"
        self.body, self.vars, self.tags, self.trailing, self.helpers = body, vars or {}, tags or {}, trailing, helpers
    def script(self):
        wr = Writer()
        names = (['$' + n for n in Helpers.names] if self.helpers else []) + ['$' + n for n in self.vars] + ['%' + n for n in self.tags]
        if names: wr.line(self.body.w, 'context ' + ', '.join(names))
        self.body.write(wr, '')
        wr.blank(self.trailing)
        return '\n'.join(wr.lines)
    def run(self):
        "-> (script, expect, trace)"
        script = self.script()
        h = Helpers()
        env = h.env() if self.helpers else {}
        env.update(self.vars)
        scope = Scope(None, env)
        for n, render in self.tags.items(): scope.tags[n] = ExtTag(n, render)
        try:
            nodes = self.body.ev(scope)
            out = render_nodes(nodes) + '\n' * self.trailing
            if out.startswith('\n'): out = out[1:]
            expect = dict(out=out)
        except LIMIT as ex: expect = dict(error=exc_names(ex)[0])
        except Skip: raise
        except Exception as ex: expect = dict(error='*' if type(ex).__name__.endswith('Ex') or isinstance(ex, Binding) else exc_names(ex)[0])
        return script, expect, h.trace

def case_of(program, vars=None, tags=None, **kw):
    script, expect, trace = program.run()
    c = dict(script=script, expect=expect, trace=trace, helpers=program.helpers, **kw)
    if vars: c['vars'] = vars
    if tags: c['tags'] = tags
    return c
