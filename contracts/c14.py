"C14: DOM construction, traversal, selection, alteration."
from vc.contract import contract
from contracts.lib import *

def D(): return domm().DOM
def node(I, name, i, **kw): return I.elem(name, i, bare(I, D().Node, index=i, **kw))
def nodelist(I, name, i):
    "an arbitrary list of nodes, a function of i"
    if not I.concrete: return I.f(name, 'list', i)
    return I.elem(name, i, [bare(I, D().Node) for _ in range(I.f(name + '_len', 'int', i) % 3)])
def skipfn(I): return I.stub(lambda n: I.f('skip', 'bool'))

def inner(I, fn, handler):
    "inner (recursive) calls of fn satisfy its contract"
    if not I.concrete: I.inner(fn, handler)

# ------------------------------------------------------------------------------------------------------------ construction

@contract('C14', 'DOM._flatten')
def flatten(I):
    "by induction on the nesting: the nodes themselves and those of nested lists, DOMs and generators, in order; None's dropped; anything else is an error"
    m = domm()
    n = I.int('n', lo=0)
    bad = []
    def mk(i):
        k = I.f('kind', 'int', i)
        if I.truth(I.eq(k, 0)): return None
        if I.truth(I.eq(k, 1)): return node(I, 'x', i)
        if I.truth(I.eq(k, 2)): bad.append(i); return I.elem('bad', i, bare(I, Other))
        l = nodelist(I, 'flat', i)
        if I.concrete:
            w = [None] + l if I.f('none', 'bool', i) else list(l)
            return [w, (z for z in w), [w], bare(I, D(), nodes=w)][I.f('how', 'int', i) % 4]
        return I.elem('c', i, bare(I, D(), index=i))
    xs = I.items('xs', mk, n)
    def step(k, acc):
        c = I.f('kind', 'int', k)
        return I.ite_list(I.eq(c, 0), acc, lambda: I.ite_list(I.eq(c, 1), I.seqcat(acc, I.list([node(I, 'x', k)])), lambda: I.seqcat(acc, nodelist(I, 'flat', k))))
    want = I.rec('want', 'list', I.list([]), step)
    fine = I.rec('fine', 'bool', True, lambda k, g: I.and_(g, I.not_(I.eq(I.f('kind', 'int', k), 2))))
    inner(I, D()._flatten, lambda ns: nodelist(I, 'flat', I.getattr(ns, 'index')))
    o = I.call(D()._flatten, xs)
    if o.raised:
        I.check('type_error', o.is_exc(TypeError))
        I.check('only_for_something_else', I.not_(fine(bad[-1] + 1)) if bad else False)
        return
    I.check('all_nodes', fine(n))
    I.check('in_order', I.items_eq(o.value, want(n)))

class Other: pass

@contract('C14', 'DOM.__init__', 'DOM.__len__', 'DOM.__bool__', 'DOM.__iter__', 'DOM.__getitem__')
def construction(I):
    n = I.int('n', lo=0)
    xs = I.seq('x', lambda i: node(I, 'x', i), n)
    I.list_hint('x', lambda i: node(I, 'x', i))
    d = I.run(D(), xs)
    I.check_seq('nodes', I.getattr(d, 'nodes'), n, lambda i: node(I, 'x', i))
    I.check('length', I.eq(I.length(d), n))
    I.check('truth', I.iff(I.truth(d), n > 0))
    j = I.int('j', lo=0)
    I.assume(j < n)
    I.check('item', I.same(I.item(d, j), node(I, 'x', j)))

# ------------------------------------------------------------------------------------------------------------ traversal

@contract('C14', 'DOM.walk')
def dom_walk(I):
    "the concatenation of the walks of the nodes, in order, with the same skip function and order"
    n = I.int('n', lo=0)
    order = I.choice('order', ['preorder', 'postorder'])
    given = I.fork('skip')
    skip = skipfn(I) if given else None
    def mk(i):
        def walk(s=None, o='preorder'):
            I.event('walk', i, s is skip, o)
            return nodelist(I, 'w', i)
        return node(I, 'x', i, walk=I.stub(walk))
    d = I.new(D(), nodes=I.seq('x', mk, n))
    want = I.rec('want', 'list', I.list([]), lambda k, acc: I.seqcat(acc, nodelist(I, 'w', k)))
    tr = I.rec('tr', 'val', I.nil, lambda k, t: I.push(t, I.ev('walk', k, True, order)))
    o = I.call(I.getattr(d, 'walk'), skip, order) if given or order != 'preorder' else I.call(I.getattr(d, 'walk'))
    I.check('no_exception', not o.raised)
    out = I.force(o.value)
    I.check('concatenation', I.items_eq(out, want(n)))
    I.check('each_once_in_order', I.same(I.trace(), tr(n)))

@contract('C14', 'DOM.Node.walk', 'DOM.walk')
def node_walk(I):
    "the node before or after the walks of the nodes of its body; nothing at all if it is to be skipped"
    order = I.choice('order', ['preorder', 'postorder'])
    given = I.fork('skip')
    kind = I.choice('body', ['none', 'nodes'])
    n = 0
    got = []
    def skip(x): I.event('skip', x); got.append(x); return I.f('skip', 'bool')
    skip = I.stub(skip) if given else None
    def mk(i):
        def walk(s=None, o='preorder'):
            I.event('walk', i, s is skip, o)
            return nodelist(I, 'w', i)
        return node(I, 'c', i, walk=I.stub(walk))
    if kind == 'none': body = None
    else:
        n = I.int('n', lo=0)
        body = I.new(D(), 'body', nodes=I.seq('c', mk, n))
    x = I.new(getattr(D(), I.choice('cls', ['Node', 'Text', 'Root'])), 'x', body=body)
    want = I.rec('want', 'list', I.list([]), lambda k, acc: I.seqcat(acc, nodelist(I, 'w', k)))
    tr = I.rec('tr', 'val', I.push(I.nil, I.ev('skip', x)) if given else I.nil, lambda k, t: I.push(t, I.ev('walk', k, True, order)))
    o = I.call(I.getattr(x, 'walk'), skip, order) if given or order != 'preorder' else I.call(I.getattr(x, 'walk'))
    I.check('no_exception', not o.raised)
    out = I.force(o.value)
    if given: I.check('skip_called_with_the_node', len(got) == 1 and got[0] is x)
    if given and I.truth(I.f('skip', 'bool')): I.check('whole_subtree_omitted', I.eq(I.length(out), 0)); return
    I.check('each_child_once_in_order', I.same(I.trace(), tr(n)))
    I.check('node_and_body', I.items_eq(out, I.seqcat(I.list([x]), want(n)) if order == 'preorder' else I.seqcat(want(n), I.list([x]))))

# ------------------------------------------------------------------------------------------------------------ selection

@contract('C14', 'DOM.select')
def select(I):
    "exactly the nodes of the walk that satisfy the constraints, in walk order; the DOM stays as it was"
    n = I.int('n', lo=0)
    order = I.choice('order', ['default', 'preorder', 'postorder'])
    crit = (I.val('tag'), I.val('name'), I.dict({'a': I.val('v')}))
    nodes = I.list([node(I, 'child', 0)])
    def constraint(tag, attr, value, attrs):
        I.event('constraint', tag, attr, value is D().ATTR_DEFINED, I.item(attrs, 'k'))
        return crit
    def test(nd, tag, name, attrs):
        i = nd.__dict__['index']
        I.check('all_constraints', I.and_(I.same(tag, crit[0]), I.same(name, crit[1]), I.same(attrs, crit[2])))
        return I.f('test', 'bool', i)
    def walk(skip=None, order='preorder'):
        I.event('walk', skip, order)
        return I.generator(n, lambda k: node(I, 'x', k))
    d = I.new(D(), nodes=nodes, walk=I.stub(walk), _constraint=I.stub(constraint), _test=I.stub(test))
    want = I.rec('want', 'list', I.list([]), lambda k, acc: I.ite_list(I.f('test', 'bool', k), I.seqcat(acc, I.list([node(I, 'x', k)])), lambda: acc))
    kv = I.val('kv')
    kw = {'k': kv}
    if order != 'default': kw['order'] = order
    t, a = I.val('t'), I.val('a')
    o = I.call(I.getattr(d, 'select'), t, a, **kw)
    I.check('no_exception', not o.raised)
    I.check('walked_once', I.same(I.trace(), I.push(I.nil, I.ev('constraint', t, a, True, kv), I.ev('walk', None, 'postorder' if order == 'postorder' else 'preorder'))))
    I.check('exactly_the_matching', I.items_eq(I.getattr(o.value, 'nodes'), want(n)))
    I.check('unmodified', I.getattr(d, 'nodes') is nodes and I.same(I.length(nodes), 1))

@contract('C14', 'DOM._constraint')
def constraint(I):
    from hypertag.core.tag import Tag
    d = I.new(D(), nodes=I.list([]))
    kind = I.choice('tag', ['none', 'name', 'tag'])
    tag = {'none': None, 'name': I.str('tag'), 'tag': I.new(Tag, 'T')}[kind]
    if kind == 'name': I.assume(I.not_(I.eq(tag, '')))
    hasattr_ = I.fork('attr')
    v, w = I.val('v'), I.val('w')
    attrs = {'b': w} if I.fork('more') else {}
    o = I.call(I.getattr(d, '_constraint'), tag, 'a' if hasattr_ else None, v, I.dict(attrs))
    I.check('no_exception', not o.raised)
    t, name, at = o.value
    I.check('by_name_or_by_tag', (t is None and I.same(name, tag)) if kind == 'name' else (t is tag and name is None))
    want = dict(attrs)
    if hasattr_: want['a'] = v
    I.check('attributes', I.same(at, I.dict(want)))

@contract('C14', 'DOM._test', bounded=True)
def test(I):
    "up to 2 attribute constraints: true if and only if all given criteria hold"
    from hypertag.core.tag import Tag
    d = I.new(D(), nodes=I.list([]))
    T1, T2 = I.new(Tag, 'T1', name='t'), I.new(Tag, 'T2', name=I.str('othername'))
    ntag = I.choice('node_tag', [None, T1, T2])
    ctag = I.choice('tag', [None, T1])
    cname = I.choice('name', [None, 't'])
    kws = I.choice('kw', [None, (), ('a',), ('a', 'b')])
    have = None if kws is None else {k: I.val('have_' + k) for k in kws}
    cs = I.choice('constraints', [(), ('a',), ('b',), ('a', 'b')])
    pres = {k: I.fork('any_value_' + k) for k in cs}
    attrs = {k: D().ATTR_DEFINED if pres[k] else I.val('want_' + k) for k in cs}
    for k in cs:
        if not pres[k]: I.assume(I.not_(I.same(attrs[k], D().ATTR_DEFINED)))
    nd = I.new(D().Node, tag=ntag, kwattrs=None if have is None else I.dict(have))
    o = I.call(I.getattr(d, '_test'), nd, ctag, cname, I.dict(attrs))
    ok = True
    if ctag is not None and ntag is not ctag: ok = False
    if cname is not None: ok = I.and_(ok, ntag is not None and I.eq(I.getattr(ntag, 'name'), cname))
    err = False
    for k in cs:
        if not I.truth(ok): break
        if have is None or k not in have: ok = False; break
        if not pres[k]:
            ne = I.outcome(lambda: I.op2(NE, have[k], attrs[k]))
            if ne.raised: err = True; break
            if I.truth(ne.value): ok = False; break
    if err: I.check('error_of_comparison', o.raised); return
    I.check('result', (not o.raised) and I.truth(o.value) == I.truth(ok) if isinstance(I.truth(o.value), bool) and isinstance(I.truth(ok), bool) else I.iff(I.truth(o.value), I.truth(ok)))
import operator
NE = operator.ne

@contract('C14', 'DOM.skip')
def skip(I):
    "a copy is altered: a node is dropped if and only if it satisfies the constraints; the DOM itself is left alone"
    crit = (I.val('tag'), I.val('name'), I.dict({'a': I.val('v')}))
    nodes = I.list([node(I, 'child', 0)])
    def constraint(tag, attr, value, attrs): I.event('constraint', tag, attr, value is D().ATTR_DEFINED, I.item(attrs, 'k')); return crit
    tests = []
    def test(nd, tag, name, attrs):
        tests.append(nd)
        I.check('all_constraints', I.and_(I.same(tag, crit[0]), I.same(name, crit[1]), I.same(attrs, crit[2])))
        return I.f('test', 'bool')
    got = []
    def alter(tr, skip=None, order='preorder'): I.event('alter', skip, order); got.append(tr); return cp
    cp = I.new(D(), 'cp', nodes=I.list([]), alter=I.stub(alter))
    d = I.new(D(), nodes=nodes, copy=I.fn('copy', ret=lambda: cp, raises=False), _constraint=I.stub(constraint), _test=I.stub(test))
    t, a, kv = I.val('t'), I.val('a'), I.val('kv')
    o = I.call(I.getattr(d, 'skip'), t, a, k=kv)
    I.check('no_exception', not o.raised)
    I.check('altered_copy', o.value is cp and len(got) == 1 and I.same(I.trace(), I.push(I.nil, I.ev('constraint', t, a, True, kv), I.ev('copy'), I.ev('alter', None, 'preorder'))))
    x = node(I, 'y', 0)
    out = I.force(I.run(got[0], x))
    I.check('tests_the_node', len(tests) == 1 and tests[0] is x)
    if I.truth(I.f('test', 'bool')): I.check('dropped', I.eq(I.length(out), 0))
    else: I.check('kept', I.items_eq(out, I.list([x])))
    I.check('unmodified', I.getattr(d, 'nodes') is nodes and I.same(I.length(nodes), 1))

# ------------------------------------------------------------------------------------------------------------ alteration, copies

def alteration(I, n, count):
    order = I.choice('order', ['preorder', 'postorder'])
    skip = skipfn(I) if I.fork('skip') else None
    def mk(i):
        def alter(t, s=None, o='preorder'): I.event('alter_x', i, t is tr, s is skip, o)
        return node(I, 'x', i, alter=I.stub(alter))
    def mky(i):
        def alter(t, s=None, o='preorder'): I.event('alter_y', i, t is tr, s is skip, o)
        return node(I, 'y', i, alter=I.stub(alter))
    def transform(x):
        i = x.__dict__['index']
        I.event('transform', i)
        if I.f('tr_raises', 'bool', i): I.raise_('tr', i)
        return I.list([mky(q) for q in count(i)])
    tr = I.stub(transform)
    return order, skip, mk, mky, tr

@contract('C14', 'DOM.alter')
def alter(I):
    "each node replaced by what the transform function gives for it; children altered after (preorder: those of the new nodes) or before"
    n = I.int('n', lo=0)
    per = I.choice('nodes_returned', [0, 1, 2])
    order, skip, mk, mky, tr = alteration(I, n, lambda i: range_(i, per))
    d = I.new(D(), nodes=I.seq('x', mk, n))
    if per: I.list_hint('y', mky, length=lambda k: k * per)
    if per == 2: I.list_hint('flat', mky)
    t0 = I.rec('t0', 'val', I.nil, lambda k, t: I.push(t, I.ev('alter_x', k, True, True, order)))
    t1 = I.rec('t1', 'val', t0(n) if order == 'postorder' else I.nil, lambda k, t: I.push(t, I.ev('transform', k)))
    t2 = I.rec('t2', 'val', t1(n), lambda k, t: I.push(t, I.ev('alter_y', k, True, True, order)))
    o = I.call(I.getattr(d, 'alter'), tr, skip, order)
    if o.raised: I.check('only_errors_of_the_function', is_stub_error(I, o.exc, 'tr') and I.same(I.trace(), t1(o.exc.index + 1))); return
    I.check('returns_the_dom', o.value is d)
    I.check_seq('nodes', I.getattr(d, 'nodes'), n * per, mky)
    I.check('order', I.same(I.trace(), t1(n) if order == 'postorder' else t2(n * per)))

def range_(i, per): return [i * per + r for r in range(per)]

@contract('C14', 'DOM.alter', bounded=True)
def alter_bounded(I):
    "up to 3 nodes, each replaced by 0 to 2 nodes"
    n = I.choice('n', [0, 1, 2, 3])
    cnt = [I.choice('count%d' % i, [0, 1, 2]) for i in range(n)]
    order, skip, mk, mky, tr = alteration(I, n, lambda i: [sum(cnt[:i]) + r for r in range(cnt[i])])
    d = I.new(D(), nodes=I.list([mk(i) for i in range(n)]))
    o = I.call(I.getattr(d, 'alter'), tr, skip, order)
    if o.raised: I.check('only_errors_of_the_function', is_stub_error(I, o.exc, 'tr')); return
    m = sum(cnt)
    I.check('nodes', I.items_eq(I.getattr(d, 'nodes'), I.list([mky(i) for i in range(m)])))
    evs = [I.ev('transform', i) for i in range(n)]
    if order == 'postorder': evs = [I.ev('alter_x', i, True, True, order) for i in range(n)] + evs
    else: evs += [I.ev('alter_y', i, True, True, order) for i in range(m)]
    I.check('order', I.same(I.trace(), I.push(I.nil, *evs)))

@contract('C14', 'DOM.Node.alter')
def node_alter(I):
    kind = I.choice('body', ['none', 'empty', 'nodes'])
    given = I.fork('skip')
    order = I.choice('order', ['preorder', 'postorder'])
    skip = I.stub(lambda z: (I.event('skip', z), I.f('skip', 'bool'))[1]) if given else None
    tr = I.stub(lambda x: None)
    def alt(t, s=None, o='preorder'): I.event('alter', t is tr, s is skip, o); return body
    body = None if kind == 'none' else I.new(D(), 'body', nodes=I.list([] if kind == 'empty' else [node(I, 'c', 0)]), alter=I.stub(alt))
    x = I.new(D().Node, 'x', body=body)
    o = I.call(I.getattr(x, 'alter'), tr, skip, order)
    I.check('returns_the_node', (not o.raised) and o.value is x)
    last = I.ev('alter', True, True, order)
    if kind == 'nodes' and not given: I.check('body_altered', I.same(I.trace(), I.push(I.nil, last)))
    if kind != 'nodes' and not given: I.check('nothing_to_alter', I.same(I.trace(), I.nil))
    if given:
        t = I.push(I.nil, I.ev('skip', x))
        I.check('unless_skipped', I.same(I.trace(), t if kind != 'nodes' or I.truth(I.f('skip', 'bool')) else I.push(t, last)))
    I.check('body_kept', I.getattr(x, 'body') is body)

@contract('C14', 'DOM.copy', 'DOM.Node.copy')
def copies(I):
    "new nodes with the same contents; the originals stay as they were"
    n = I.int('n', lo=0)
    def mk(i): return node(I, 'x', i, copy=I.stub(lambda: (I.event('copy', i), node(I, 'y', i))[1]))
    xs = I.seq('x', mk, n)
    d = I.new(D(), nodes=xs)
    if I.fork('dom'):
        tr = I.rec('tr', 'val', I.nil, lambda k, t: I.push(t, I.ev('copy', k)))
        o = I.call(I.getattr(d, 'copy'))
        I.check('no_exception', not o.raised)
        I.check('new_dom', o.value is not d and I.isinst(o.value, D()))
        I.check_seq('copies', I.getattr(o.value, 'nodes'), n, lambda i: node(I, 'y', i))
        I.check('each_once', I.same(I.trace(), tr(n)))
        I.check('original', I.getattr(d, 'nodes') is xs)
        return
    b2 = I.new(D(), 'b2', nodes=I.list([]))
    body = I.new(D(), 'body', nodes=I.list([]), copy=I.stub(lambda: b2)) if I.fork('body') else None
    from hypertag.core.tag import Tag
    tag, ind, a, v = I.new(Tag, 'tag'), I.str('indent'), I.val('a'), I.val('v')
    attrs, kw = I.list([a]), I.dict({'k': v})
    hasattrs = I.fork('attrs')
    cls = getattr(D(), I.choice('cls', ['Node', 'Text', 'Root']))
    x = I.new(cls, 'x', tag=tag, body=body, indent=ind, outline=True, margin=False, **(dict(attrs=attrs, kwattrs=kw) if hasattrs else {}))
    o = I.call(I.getattr(x, 'copy'))
    I.check('no_exception', not o.raised)
    y = o.value
    I.check('new_node_of_the_same_class', y is not x and type(y) is cls)
    I.check('same_contents', I.getattr(y, 'tag') is tag and I.same(I.getattr(y, 'indent'), ind) and I.getattr(y, 'outline') is True and I.getattr(y, 'margin') is False)
    I.check('copied_body', I.getattr(y, 'body') is (b2 if body is not None else None))
    if hasattrs:
        I.check('equal_attributes', I.items_eq(I.getattr(y, 'attrs'), I.list([a])) and I.same(I.getattr(y, 'kwattrs'), I.dict({'k': v})))
        I.check('own_attributes', I.getattr(y, 'attrs') is not attrs and I.getattr(y, 'kwattrs') is not kw)
    I.check('original', I.getattr(x, 'body') is body and I.getattr(x, 'tag') is tag and I.same(I.getattr(x, 'indent'), ind))
