"C14: walk, select, skip, alter, copying and flattening of DOM trees."
from .gen import *

NAMES = ['a', 'p', 'div', 'h1', 'table', 'x', 'Div', 'A']
ATTRS = ['id', 'class', 'href', 'k', 'k2']
VALUES = ['1', 'x', '', None, True, False, 0, 1, 'Ala', [1], 'a b']

def rtree(r, size, ids, depth):
    "spec of a list of nodes (with containers)"
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3]) if depth else r.choice([1, 2, 3, 4])):
        k = r.random()
        if k < .1: out.append(None); continue
        if k < .22: out.append(dict(c=r.choice(['list', 'dom', 'gen']), items=rtree(r, size, ids, depth + 1) if depth < size + 1 else [])); continue
        ids[0] += 1
        n = dict(id=ids[0])
        if k < .4: n['text'] = r.choice(['t', '', 'a\nb', '&lt;'])
        else:
            n['tag'] = r.choice(NAMES) if r.random() < .85 else None
            if r.random() < .7: n['kw'] = {r.choice(ATTRS): r.choice(VALUES) for _ in range(r.choice([0, 1, 1, 2, 3]))}
            if r.random() < .2: n['pos'] = [r.choice(VALUES)]
            n['kids'] = rtree(r, size, ids, depth + 1) if depth <= size and r.random() < .8 else []
        out.append(n)
    return out

def criteria(r):
    c = {}
    k = r.random()
    if k < .35: c['tag'] = r.choice(NAMES + ['nope'])
    elif k < .55: c['tagobj'] = r.choice(NAMES)
    if r.random() < .45: c['attr'] = r.choice(ATTRS)
    if 'attr' in c and r.random() < .6: c['value'] = r.choice(VALUES)
    if r.random() < .3: c['kw'] = {r.choice(ATTRS): r.choice(VALUES) for _ in range(r.choice([1, 1, 2]))}
    c['order'] = r.choice(['preorder', 'postorder', None])
    return c

@suite('C14', 'trees', 3)
def trees(r, size):
    ids = [0]
    t = rtree(r, min(size, 4), ids, 0)
    n = ids[0]
    return dict(tree=t, skip=sorted(i for i in range(1, n + 1) if r.random() < .15), order=r.choice(['preorder', 'postorder']), criteria=[criteria(r) for _ in range(4)],
                alter={str(i): r.choice([[], ['self', 'self'], ['new'], ['new', 'self'], ['wrap'], ['self', None, 'new']]) for i in range(1, n + 1) if r.random() < .25}, gen=r.random() < .5)

class Tags_:
    def __init__(self):
        from hypertag.core.tag import Markup
        self.t = {n: Markup(n) for n in NAMES}
        self.u = {n: Markup(n) for n in NAMES}      # tags of the same names that are not the ones used

def build(spec, T):
    "spec -> arguments for DOM"
    from hypertag.core.dom import DOM
    def conv(s):
        if s is None: return None
        if 'c' in s:
            items = [conv(x) for x in s['items']]
            return items if s['c'] == 'list' else DOM(*items) if s['c'] == 'dom' else (x for x in items)
        if 'text' in s: return DOM.Text(s['text'], nid=s['id'])
        kw = {}
        if s['tag'] is not None: kw['tag'] = T.t[s['tag']]
        if 'kw' in s: kw['kwattrs'] = dict(s['kw'])
        if 'pos' in s: kw['attrs'] = list(s['pos'])
        kids = [conv(x) for x in s['kids']]
        return DOM.Node(kids if len(kids) != 1 else kids[0], nid=s['id'], **kw)
    return DOM(*[conv(s) for s in spec])

def flat(spec):
    out = []
    for s in spec:
        if s is None: continue
        if 'c' in s: out += flat(s['items'])
        else:
            s = dict(s); s['kids'] = flat(s.get('kids', [])); out.append(s)
    return out

def shape(dom):
    "structure of a real DOM, read through its attributes only"
    return [(n.nid, getattr(n, 'text', None), n.tag.name if n.tag else None, list(n.attrs) if n.attrs else None, dict(n.kwattrs) if n.kwattrs is not None else None, shape(n.body)) for n in dom.nodes]
def want_shape(spec): return [(s['id'], s.get('text'), s.get('tag'), s.get('pos'), s.get('kw'), want_shape(s['kids'])) for s in spec]
def want_walk(spec, skip, order):
    for s in spec:
        if s['id'] in skip: continue
        if order == 'preorder': yield s
        yield from want_walk(s['kids'], skip, order)
        if order == 'postorder': yield s
def matches(s, c):
    if 'tag' in c and s.get('tag') != c['tag']: return False
    if 'tagobj' in c and (s.get('tag') != c['tagobj'] or c.get('other')): return False
    kw = s.get('kw') or {}
    cr = list(c.get('kw', {}).items()) + ([(c['attr'], c['value'])] if 'value' in c else [])
    if 'attr' in c and 'value' in c: cr = [(k, v) for k, v in cr if k != c['attr']] + [(c['attr'], c['value'])]
    elif 'attr' in c:
        cr = [(k, v) for k, v in cr if k != c['attr']]
        if c['attr'] not in kw: return False
    return all(k in kw and kw[k] == v for k, v in cr)
def args_of(c, T, order=True):
    kw = dict(c.get('kw', {}))
    if 'tag' in c: kw['tag'] = c['tag']
    if 'tagobj' in c: kw['tag'] = T.t[c['tagobj']]
    if 'attr' in c: kw['attr'] = c['attr']
    if 'value' in c: kw['value'] = c['value']
    if order and c.get('order'): kw['order'] = c['order']
    return kw
def nids(nodes): return [n.nid for n in nodes]
def allnodes(dom):
    for n in dom.nodes:
        yield n; yield from allnodes(n.body)

def check_trees(case):
    from hypertag.core.dom import DOM
    T = Tags_()
    spec = flat(case['tree'])
    dom = build(case['tree'], T)
    ws = want_shape(spec)
    if shape(dom) != ws: return 'structure of a DOM built of nested lists: %r, expected %r' % (shape(dom), ws)
    before = dom.render() if not any(x is None for n in allnodes(dom) for x in (n.kwattrs or {}).values()) and not any(n.attrs and n.tag for n in allnodes(dom)) else None
    skip = set(case['skip'])
    for order in ('preorder', 'postorder'):
        for sk in (None, skip):
            got = nids(dom.walk(None if sk is None else (lambda n: n.nid in sk), order)); want = [s['id'] for s in want_walk(spec, sk or (), order)]
            if got != want: return 'walk(skip=%r, order=%s): %r, expected %r' % (sk, order, got, want)
    if nids(dom.walk()) != [s['id'] for s in want_walk(spec, (), 'preorder')]: return 'walk() is not preorder'
    ids = {id(n) for n in allnodes(dom)}
    for c in case['criteria']:
        sel = dom.select(**args_of(c, T))
        want = [s['id'] for s in want_walk(spec, (), c.get('order') or 'preorder') if matches(s, c)]
        if nids(sel) != want: return 'select(%r): %r, expected %r' % (c, nids(sel), want)
        if not isinstance(sel, DOM): return 'select() returned %s' % type(sel)
        if any(id(n) not in ids for n in sel): return 'select() returned nodes that are not those of the DOM'
        if 'tag' in c and set(c) <= {'tag', 'order'} and nids(dom[c['tag']]) != [s['id'] for s in want_walk(spec, (), 'preorder') if matches(s, c)]: return 'dom[%r]' % c['tag']
        if 'tagobj' in c:
            got = nids(dom.select(T.u[c['tagobj']]))
            if got: return 'select() by a tag returned nodes of another tag of the same name: %r' % got
        def drop(ss): return [dict(s, kids=drop(s['kids'])) for s in ss if not matches(s, c)]
        d2 = dom.skip(**args_of(c, T, False))
        if shape(d2) != want_shape(drop(spec)): return 'skip(%r): %r, expected %r' % (c, shape(d2), want_shape(drop(spec)))
        if shape(dom) != ws: return 'skip(%r) modified the original: %r' % (c, shape(dom))
        if d2 is dom or any(id(n) in ids for n in allnodes(d2)): return 'skip() returned nodes of the original DOM'
        doms = {id(dom)} | {id(n.body) for n in allnodes(dom)} | {id(x) for n in allnodes(dom) for x in (n.attrs, n.kwattrs) if x is not None and x != () }
        if any(id(n.body) in doms or n.kwattrs is not None and id(n.kwattrs) in doms for n in allnodes(d2)): return 'skip() returned nodes that share bodies or attributes with the original'
        for n in list(allnodes(d2)):
            if n.kwattrs is not None: n.kwattrs['zz'] = 1
            n.body.nodes.append(DOM.Text('more', nid=-1))
        if shape(dom) != ws: return 'modification of a result of skip() changes the original'
    cp = dom.copy()
    if shape(cp) != ws or any(id(n) in ids for n in allnodes(cp)): return 'copy() is not an equal copy'
    if any(a.tag is not b.tag for a, b in zip(allnodes(dom), allnodes(cp))): return 'copy() changed tags'
    if before is not None and dom.render() != before: return 'rendered output changed: %r, before %r' % (dom.render(), before)
    # alter
    order = case['order']; al = {int(k): v for k, v in case['alter'].items()}
    cnt = [0]; calls = []
    def tr(s_id, self_, make, kids):
        out = []
        for what in al.get(s_id, ['self']):
            if what is None: out.append(None)
            elif what == 'self': out.append(self_)
            elif what == 'new': out.append(make(s_id * 1000, []))
            else: out.append(make(s_id * 1000 + 1, [self_]))
        return out
    if any(v == ['self', 'self'] for v in al.values()):        # the same node twice: compared as lists of ids only
        al = {k: (['self'] if v == ['self', 'self'] else v) for k, v in al.items()}
    def transform(n):
        calls.append(n.nid)
        res = tr(n.nid if n.nid < 1000 else -1, n, lambda i, kids: DOM.Node(kids, nid=i), None)
        return (x for x in res) if case['gen'] else res
    wcalls = []
    def want_tr(s):
        wcalls.append(s['id'])
        return [x for x in tr(s['id'] if s['id'] < 1000 else -1, s, lambda i, kids: dict(id=i, kids=kids), None) if x is not None]
    def want_alter(ss, depth=0):
        if depth > 40: raise Skip
        if order == 'postorder':
            for s in ss:
                if s['id'] not in skip: s['kids'] = want_alter(s['kids'], depth + 1)
        ss = [x for s in ss for x in want_tr(s)]
        if order == 'preorder':
            for s in ss:
                if s['id'] not in skip: s['kids'] = want_alter(s['kids'], depth + 1)
        return ss
    if order == 'preorder': al = {k: [w for w in v if w != 'wrap'] for k, v in al.items()}       # would transform the node again
    want = want_shape(want_alter(spec))
    res = dom.alter(transform, (lambda n: n.nid in skip) if skip else None, order)
    if res is not dom: return 'alter() should return self'
    if shape(dom) != want: return 'alter(%s): %r, expected %r' % (order, shape(dom), want)
    if calls != wcalls: return 'alter(%s): transform called for %r, expected %r' % (order, calls, wcalls)
SUITES['C14'][0] = SUITES['C14'][0][:3] + (check_trees,)

_doc = general(Profile(weights=dict(tags=9, text=4, use=2, def_=1), attrs=.6, fail=0, none=0, trace=0))
@suite('C14', 'documents')
def documents(r, size): return dict(_doc(r, size), crit=[criteria(r) for _ in range(3)])
def check_documents(case):
    "selection in translated documents: rendering is the same before and after"
    if 'out' not in case['expect']: raise Skip
    h = Helpers(); env = h.env()
    for k, v in case.get('vars', {}).items(): env[k] = decode(v)
    tags = {k: make_tag(k, v) for k, v in case.get('tags', {}).items()} or None
    rt = runtime()
    m = rt.translate(case['script'], __tags__=tags, **env)
    from hypertag.core.dom import DOM
    dom = m.dom
    root = DOM(dom)
    def rec(nodes, order):
        for n in nodes:
            if order == 'preorder': yield n
            yield from rec(n.body.nodes, order)
            if order == 'postorder': yield n
    out = m.dom.render()
    if out != case['expect']['out']: return 'rendered %r, expected %r' % (out, case['expect']['out'])
    for order in ('preorder', 'postorder'):
        want = list(rec([dom], order)); got = list(root.walk(order=order))
        if len(want) != len(got) or any(a is not b for a, b in zip(want, got)): return 'walk(%s) of a document' % order
    for c in case['crit']:
        c = {k: v for k, v in c.items() if k != 'tagobj'}
        def test(n):
            s = dict(tag=n.tag.name if n.tag else None, kw=n.kwattrs)
            return matches(s, c)
        kw = dict(c.get('kw', {})); kw.update({k: c[k] for k in ('tag', 'attr', 'value') if k in c})
        want = [n for n in rec([dom], c.get('order') or 'preorder') if test(n)]
        got = list(root.select(order=c.get('order') or 'preorder', **kw))
        if len(want) != len(got) or any(a is not b for a, b in zip(want, got)): return 'select(%r) in a document: %d nodes, expected %d' % (c, len(got), len(want))
        before = [id(n) for n in rec([dom], 'preorder')]
        s = root.skip(**kw)
        if [n for n in rec(s.nodes, 'preorder') if test(n)]: return 'skip(%r) left matching nodes' % (c,)
        if before != [id(n) for n in rec([dom], 'preorder')]: return 'skip(%r) modified the document' % (c,)
        if not test(dom) and not any(test(n) for n in rec([dom], 'preorder')) and s.render() != DOM.render(root): return 'skip(%r) of nothing renders differently' % (c,)
    if m.dom.render() != out: return 'selection changed the rendered document'
SUITES['C14'][1] = SUITES['C14'][1][:3] + (check_documents,)
