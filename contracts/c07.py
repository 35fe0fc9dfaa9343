"C07: the ? and ! qualifiers."
from vc.contract import contract
from contracts.lib import *

def _qualified(I, cls):
    N = nodes()
    inner = I.fn('inner', ret='val', raises=True)
    q = I.choice('qualifier', [None, '?', '!'])
    node = I.new(cls(N), qualifier=q, _eval_inner_qualified=inner)
    state = I.new(State())
    o = I.call(cls(N).evaluate_with_qualifier, node, state)
    raises, v = I.f('inner_raises', 'bool'), I.f('inner_ret', 'val')
    I.check('evaluated_once', I.eq(I.trace(), I.push(I.nil, I.ev('inner', state))))
    if raises:
        if q == '?': I.check('optional_error_gives_empty', (not o.raised) and I.same(o.value, ''))
        else: I.check('error_propagates', o.raised and is_stub_error(I, o.exc, 'inner'))
    elif I.truth(v):
        I.check('true_value_unchanged', (not o.raised) and I.same(o.value, v))
    else:
        if q == '?': I.check('optional_false_gives_empty', (not o.raised) and I.same(o.value, ''))
        elif q == '!': I.check('obligatory_false_raises', o.is_exc(Exception))
        else: I.check('unqualified_false_unchanged', (not o.raised) and I.same(o.value, v))

@contract('C07', 'NODES.expression.evaluate_with_qualifier')
def evaluate_with_qualifier(I): _qualified(I, lambda N: N.expression)

@contract('C07', 'NODES.expression.evaluate_with_qualifier (BaseException)')
def qualifier_passes_non_exceptions(I):
    N = nodes()
    cls = I.choice('cls', [KeyboardInterrupt, SystemExit, GeneratorExit])
    def inner(state): I.exc(cls())
    node = I.new(N.expression, qualifier=I.choice('qualifier', [None, '?', '!']), _eval_inner_qualified=I.stub(inner))
    o = I.call(N.expression.evaluate_with_qualifier, node, I.new(State()))
    I.check('passes_through', o.is_exc(cls))

@contract('C07', 'NODES.xfactor.setup', 'NODES.xfactor.evaluate', 'NODES.xfactor._eval_inner_qualified')
def xfactor(I):
    "atom, then every tail operator in order on the previous result; a trailing qualifier applies to the whole factor, once"
    N = nodes()
    state = I.new(State())
    atom = I.new(N.expression, 'atom', type='x', evaluate=I.fn('atom', ret='val'))
    n = I.int('n', lo=0)
    def mk(i):
        def apply(obj, st):
            I.event('op', i, obj, st)
            if I.f('op_raises', 'bool', i): I.raise_('op', i)
            return I.f('op_val', 'val', i, obj)
        return I.elem('op', i, bare(I, N.xcall, type='call', apply=I.stub(apply)))
    ops = I.seq('op', mk, n)
    q = I.choice('qualifier', [None, '?', '!'])
    items = [atom] + ([I.new(N.xqualifier, type='qualifier', text=I.stub(lambda: q))] if q else [])
    children = I.seqcat(items[:1], ops, items[1:])
    node = I.new(N.xfactor, children=children)
    I.run(N.xfactor.setup, node)
    acc = I.rec('acc', 'val', I.f('atom_ret', 'val'), lambda k, a: I.f('op_val', 'val', k, a))
    tr = I.rec('tr', 'val', I.push(I.nil, I.ev('atom', state)), lambda k, t: I.push(t, I.ev('op', k, acc(k), state)))
    fine = I.rec('fine', 'bool', True, lambda k, b: I.not_(I.f('op_raises', 'bool', k)))
    o = I.call(N.xfactor.evaluate, node, state)
    if I.f('atom_raises', 'bool'):
        I.check('trace_atom', I.same(I.trace(), tr(0)))
        failed = True
    else:
        failed = not I.same(I.nevents(), n + 1) or bool(I.and_(n > 0, I.f('op_raises', 'bool', n - 1)))
        k = I.nevents() - 1
        I.check('each_operator_once_in_order', I.same(I.trace(), tr(k)))
        if failed: I.check('stops_at_failure', I.f('op_raises', 'bool', k - 1))
    if failed:
        if q == '?': I.check('optional_error_gives_empty', (not o.raised) and I.same(o.value, ''))
        else: I.check('error_propagates', o.raised)
        return
    v = acc(n)
    if I.truth(v): I.check('value_is_chain_result', (not o.raised) and I.same(o.value, v))
    elif q == '?': I.check('optional_false_gives_empty', (not o.raised) and I.same(o.value, ''))
    elif q == '!': I.check('obligatory_false_raises', o.is_exc(Exception))
    else: I.check('unqualified_false_unchanged', (not o.raised) and I.same(o.value, v))

@contract(['C07', 'C17'], 'NODES.expression_root.setup', 'NODES.expression_root.evaluate', 'NODES.expression_root._eval_inner_qualified')
def expression_root(I):
    "the qualifier of an embedded expression is the one that directly follows it"
    N = nodes()
    state = I.new(State())
    child = I.new(N.expression, 'child', evaluate=I.fn('inner', ret='val'))
    q = I.choice('qualifier', [None, '?', '!'])
    sib = I.choice('sibling', ['qualifier', 'text', None]) if q is None else 'qualifier'
    if q is None and sib == 'qualifier': sib = None
    s = None if sib is None else I.new(N.xqualifier, 'sib', type=sib, text=I.stub(lambda: q if sib == 'qualifier' else '?'))
    node = I.new(N.xexpr, children=I.list([child]), sibling_next=s)
    I.run(N.xexpr.setup, node)
    o = I.call(N.xexpr.evaluate, node, state)
    raises, v = I.f('inner_raises', 'bool'), I.f('inner_ret', 'val')
    I.check('evaluated_once', I.same(I.trace(), I.push(I.nil, I.ev('inner', state))))
    if raises: I.check('error', (not o.raised and I.same(o.value, '')) if q == '?' else is_stub_error(I, o.exc, 'inner'))
    elif I.truth(v): I.check('true_value_unchanged', (not o.raised) and I.same(o.value, v))
    elif q == '?': I.check('optional_false_gives_empty', (not o.raised) and I.same(o.value, ''))
    elif q == '!': I.check('obligatory_false_raises', o.is_exc(Exception)); located(I, o, node)
    else: I.check('unqualified_false_unchanged', (not o.raised) and I.same(o.value, v))
