"C10: if, for, while."
from vc.contract import contract
from contracts.lib import *

def patch_layout(I):
    "DOM.set_indent by its contract (C05.dom_layout): here only the event matters"
    I.patch(domm().DOM, 'set_indent', I.stub(lambda self, ind: I.event('indent', self, ind)))

def dom(I, name, i=0): return I.elem(name, i, bare(I, domm().DOM, nodes=I.list([]), made=name))

@contract('C10', 'NODES.xblock_if.setup', 'NODES.xblock_if._select_branch', 'NODES.control_block.translate', 'NODES.xclause_if.translate')
def if_block(I):
    "conditions in order up to the first true one, whose body is rendered; the else body if none is true; nothing otherwise"
    N = nodes()
    patch_layout(I)
    ind = I.str('indentation')
    state = I.new(State(), indentation=ind)
    n = I.int('n', lo=1)
    def mk(i):
        def test(st):
            I.event('test', i, st)
            if I.f('test_raises', 'bool', i): I.raise_('test', i)
            return I.f('test', 'val', i)
        def body(st):
            I.event('body', i, st)
            if I.f('body_raises', 'bool', i): I.raise_('body', i)
            return dom(I, 'dom', i)
        return I.elem('cl', i, bare(I, N.xclause_if, type='clause_if', test=bare(I, N.expression_root, evaluate=I.stub(test)), translate=I.stub(body)))
    cl = I.seq('cl', mk, n)
    haselse = I.fork('else')
    def els(st):
        I.event('else', st)
        if I.f('else_raises', 'bool'): I.raise_('else')
        return dom(I, 'elsedom')
    e = I.new(N.xclause_else, 'e', type='clause_else', translate=I.stub(els))
    node = I.new(N.xblock_if, children=I.seqcat(cl, I.list([e])) if haselse else cl)
    tr = I.rec('tr', 'val', I.nil, lambda k, t: I.push(t, I.ev('test', k, state)))
    false = I.rec('false', 'bool', True, lambda k, g: I.and_(g, I.not_(I.truth(I.f('test', 'val', k)))))
    I.run(I.getattr(node, 'setup'))
    o = I.call(I.getattr(node, 'translate'), state)
    m = I.nevents()
    if is_stub_error(I, o.exc, 'test'):
        j = o.exc.index
        I.check('error_of_a_condition', I.and_(I.same(I.trace(), tr(j + 1)), false(j)))
    elif is_stub_error(I, o.exc, 'body'):
        j = o.exc.index
        I.check('error_of_the_body', I.and_(I.same(I.trace(), I.push(tr(j + 1), I.ev('body', j, state))), false(j), I.truth(I.f('test', 'val', j))))
    elif is_stub_error(I, o.exc, 'else'):
        I.check('error_of_else', I.and_(I.same(I.trace(), I.push(tr(n), I.ev('else', state))), false(n)))
    else:
        I.check('no_other_exception', not o.raised)
        made = o.value.__dict__.get('made')
        I.check('result_of_this_block', made in ((None, 'dom') if not haselse else ('dom', 'elsedom')))
        if made != 'dom':
            I.check('no_condition_true', false(n))
            t = I.push(tr(n), I.ev('else', state)) if haselse else tr(n)
            I.check('else_or_nothing', I.same(I.trace(), I.push(t, I.ev('indent', o.value, ind))))
            if haselse: I.check('content_of_else', I.same(o.value, dom(I, 'elsedom')))
            else: I.check('empty', I.same(I.length(I.getattr(o.value, 'nodes')), 0))
        else:
            j = m - 3
            I.check('first_true_one', I.and_(false(j), I.truth(I.f('test', 'val', j)), 0 <= j, j < n))
            I.check('only_it', I.same(I.trace(), I.push(tr(j + 1), I.ev('body', j, state), I.ev('indent', o.value, ind))))
            I.check('content', I.same(o.value, dom(I, 'dom', j)))

def loop_body(I, name, state, per):
    "a body: event (name, state); translation number j (counted by events) yields `per` nodes"
    def body(st):
        j = I.nevents()
        I.event(name, st)
        if I.f(name + '_raises', 'bool', j): I.raise_(name, j)
        return I.new(domm().DOM, nodes=I.list([node(I, name, j * per + r) for r in range(per)]))
    return I.stub(body)
def node(I, name, i): return I.elem(name + '_node', i, bare(I, domm().DOM.Node))

@contract('C10', 'NODES.xblock_for.setup', 'NODES.xblock_for.translate')
def for_loop(I):
    "the body once per element, in order, after the targets were assigned that element; else if and only if there were none; the iterable is evaluated once"
    N = nodes()
    patch_layout(I)
    ind = I.str('indentation')
    state = I.new(State(), indentation=ind)
    m = I.int('m', lo=0)
    hasbody, haselse = I.fork('body'), I.fork('else')
    per = I.choice('nodes_per_iteration', [0, 1, 2]) if hasbody else 0
    ev = 2 if hasbody else 1
    def item(k):
        if I.f('item_raises', 'bool', k): I.raise_('item', k)
        return I.f('item', 'val', k)
    def expr(st):
        I.event('expr', st)
        if I.f('expr_raises', 'bool'): I.raise_('expr')
        return I.generator(m, item)
    def assign(st, v):
        j = I.nevents()
        I.event('assign', st, v)
        if I.f('assign_raises', 'bool', j): I.raise_('assign', j)
    def els(st):
        I.event('else', st)
        if I.f('else_raises', 'bool'): I.raise_('else')
        return dom(I, 'elsedom')
    t = I.new(N.xtargets, 't', type='targets', assign=I.stub(assign))
    e = I.new(N.expression_root, 'e', type='expr_root', evaluate=I.stub(expr))
    b = I.new(N.xbody_control, 'b', type='body_control', translate=loop_body(I, 'body', state, per))
    c = I.new(N.xclause_else, 'c', type='clause_else', translate=I.stub(els))
    nd = I.new(N.xblock_for, children=I.list([t, e] + ([b] if hasbody else []) + ([c] if haselse else [])))
    def step(k, t):
        t = I.push(t, I.ev('assign', state, I.f('item', 'val', k)))
        return I.push(t, I.ev('body', state)) if hasbody else t
    first = I.push(I.nil, I.ev('expr', state))
    tr = I.rec('tr', 'val', first, step)
    # node number q of the result: the body of iteration k runs after 1 + ev * k + 1 events
    def out(q):
        k = q if per < 2 else I.op('floordiv', q, 2) if I.concrete else q // 2
        return node(I, 'body', (2 + 2 * k) * per + (0 if per < 2 else q % 2))
    if per: I.list_hint('out', out, length=lambda k: k * per)
    if per == 2: I.list_hint('flat', out)
    I.run(I.getattr(nd, 'setup'))
    o = I.call(I.getattr(nd, 'translate'), state)
    n = I.nevents()
    if is_stub_error(I, o.exc, 'expr'): I.check('error_of_the_iterable', I.same(I.trace(), first)); return
    if is_stub_error(I, o.exc, 'item'): I.check('error_of_the_iterable', I.same(I.trace(), tr(o.exc.index))); return
    if is_stub_error(I, o.exc, 'assign'):
        j = o.exc.index; k = (j - 1) // ev
        I.check('error_of_the_targets', I.same(I.trace(), I.push(tr(k), I.ev('assign', state, I.f('item', 'val', k))))); return
    if is_stub_error(I, o.exc, 'body'): I.check('error_of_the_body', I.same(I.trace(), tr((o.exc.index - 2) // ev + 1))); return
    if is_stub_error(I, o.exc, 'else'): I.check('else_only_if_empty', I.and_(I.eq(m, 0), I.same(I.trace(), I.push(first, I.ev('else', state))))); return
    I.check('no_other_exception', not o.raised)
    if haselse and I.truth(I.eq(m, 0)):
        I.check('else', I.same(I.trace(), I.push(first, I.ev('else', state), I.ev('indent', o.value, ind))) and I.same(o.value, dom(I, 'elsedom')))
        return
    I.check('once_per_element_in_order', I.same(I.trace(), I.push(tr(m), I.ev('indent', o.value, ind))))
    I.check_seq('concatenation', I.getattr(o.value, 'nodes'), m * per, out)

@contract('C10', 'NODES.xblock_while.translate')
def while_loop(I):
    "(partial correctness) the body as long as the condition is true, which is evaluated before each iteration; else if and only if there was no iteration"
    N = nodes()
    patch_layout(I)
    ind = I.str('indentation')
    state = I.new(State(), indentation=ind)
    haselse = I.fork('else')
    per = I.choice('nodes_per_iteration', [0, 1, 2])
    bound = I.int('bound', lo=0, hi=4)
    def test(st):
        j = I.nevents()
        I.event('test', st)
        if I.concrete and j >= 2 * bound: return 0
        if I.f('test_raises', 'bool', j): I.raise_('test', j)
        return I.f('test', 'val', j)
    def els(st):
        I.event('else', st)
        if I.f('else_raises', 'bool'): I.raise_('else')
        return dom(I, 'elsedom')
    cl = I.new(N.xclause_if, 'cl', type='clause_if', test=I.new(N.expression_root, 'e', evaluate=I.stub(test)), translate=loop_body(I, 'body', state, per))
    c = I.new(N.xclause_else, 'c', type='clause_else', translate=I.stub(els))
    nd = I.new(N.xblock_while, children=I.list([cl] + ([c] if haselse else [])))
    cond = lambda k: False if I.concrete and k >= bound else I.truth(I.f('test', 'val', 2 * k))
    tr = I.rec('tr', 'val', I.nil, lambda k, t: I.push(t, I.ev('test', state), I.ev('body', state)))
    true = I.rec('true', 'bool', True, lambda k, g: I.and_(g, cond(k)))
    def out(q):
        k = q if per < 2 else q // 2
        return node(I, 'body', (1 + 2 * k) * per + (0 if per < 2 else q % 2))
    if per: I.list_hint('out', out, length=lambda k: k * per)
    if per == 2: I.list_hint('flat', out)
    o = I.call(I.getattr(nd, 'translate'), state)
    n = I.nevents()
    if is_stub_error(I, o.exc, 'test'):
        k = o.exc.index // 2
        I.check('error_of_the_condition', I.and_(true(k), I.same(I.trace(), I.push(tr(k), I.ev('test', state))))); return
    if is_stub_error(I, o.exc, 'body'):
        k = (o.exc.index - 1) // 2
        I.check('error_of_the_body', I.and_(true(k + 1), I.same(I.trace(), tr(k + 1)))); return
    if is_stub_error(I, o.exc, 'else'): I.check('else_only_if_empty', I.and_(I.not_(cond(0)), I.same(I.trace(), I.push(I.nil, I.ev('test', state), I.ev('else', state))))); return
    I.check('no_other_exception', not o.raised)
    if haselse and o.value.__dict__.get('made') == 'elsedom':
        I.check('else_only_if_no_iteration', I.not_(cond(0)))
        I.check('else', I.same(I.trace(), I.push(I.nil, I.ev('test', state), I.ev('else', state), I.ev('indent', o.value, ind))) and I.same(o.value, dom(I, 'elsedom')))
        return
    k = (n - 2) // 2
    if haselse: I.check('else_not_skipped', k > 0)
    I.check('until_the_condition_fails', I.and_(true(k), I.not_(cond(k))))
    I.check('test_and_body_alternate', I.same(I.trace(), I.push(tr(k), I.ev('test', state), I.ev('indent', o.value, ind))))
    I.check_seq('concatenation', I.getattr(o.value, 'nodes'), k * per, out)

@contract('C10', 'NODES.xclause_if.setup', 'NODES.xclause_if.translate', 'NODES.xclause_else.translate')
def clauses(I):
    "a clause renders its body; without one it is empty"
    N = nodes()
    state = I.new(State())
    has = I.fork('body')
    d = I.new(domm().DOM, 'd', nodes=I.list([]))
    test = I.new(N.expression_root, 'test')
    body = I.new(N.xbody_control, 'b', translate=I.fn('body', ret=lambda st: d))
    kind = I.choice('kind', ['if', 'else'])
    if kind == 'if':
        nd = I.new(N.xclause_if, children=I.list([test] + ([body] if has else [])))
        I.run(I.getattr(nd, 'setup'))
        I.check('condition', I.getattr(nd, 'test') is test)
    else: nd = I.new(N.xclause_else, children=I.list([body] if has else []))
    o = I.call(I.getattr(nd, 'translate'), state)
    if not has:
        I.check('nothing_called', I.same(I.trace(), I.nil))
        I.check('empty', (not o.raised) and I.same(I.length(I.getattr(o.value, 'nodes')), 0)); return
    I.check('once', I.same(I.trace(), I.push(I.nil, I.ev('body', state))))
    if I.f('body_raises', 'bool'): I.check('error_propagates', is_stub_error(I, o.exc, 'body'))
    else: I.check('its_body', I.same(o.value, d))
