"C08: expressions evaluate as in Python: the evaluate() methods against the order and the number of evaluations and the operators applied."
from vc.contract import contract
from contracts.lib import *

def expr(I, name, **kw):
    return I.new(nodes().expression, name, evaluate=I.fn(name, ret='val'), **kw)

def exprs(I, name, n=None, type=None):
    "a list of n (unknown) subexpressions; evaluation of the i-th one is the event (name, i, state)"
    N = nodes()
    def mk(i):
        def evaluate(state):
            I.event(name, i, state)
            if I.f(name + '_raises', 'bool', i): I.raise_(name, i)
            return I.f(name + '_ret', 'val', i)
        return I.elem(name, i, bare(I, N.expression, type=type or 'expr', evaluate=I.stub(evaluate)))
    return I.seq(name, mk, n)

def ret(I, name, i): return I.f(name + '_ret', 'val', i)
def bad(I, name, i): return I.f(name + '_raises', 'bool', i)

def evaltrace(I, name, state, init=None):
    "trace of evaluating items 0..k-1 in order"
    return I.rec('evals_' + name, 'val', I.nil if init is None else init, lambda k, t: I.push(t, I.ev(name, k, state)))

# ------------------------------------------------------------------------------------------------- chains of binary operators

def opnodes(I, n):
    N = nodes()
    def mk(i):
        def apply(a, b):
            I.event('op', i, a, b)
            if I.f('op_raises', 'bool', i): I.raise_('op', i)
            return I.f('op_val', 'val', i, a, b)
        return I.elem('op', i, bare(I, N.static_operator, type='op', name='+', apply=I.stub(apply)))
    return I.seq('op', mk, n)

def run_chain(I, cls, children, state, n, first_val, first_trace, nfirst, off):
    """children[...] evaluate to a head (first_val; trace first_trace of nfirst events), then n-1 pairs (op i, x i+off)."""
    N = nodes()
    acc = I.rec('acc', 'val', first_val, lambda k, a: I.f('op_val', 'val', k, a, ret(I, 'x', k + off)))
    tr = I.rec('tr', 'val', first_trace, lambda k, t: I.push(t, I.ev('x', k + off, state), I.ev('op', k, acc(k), ret(I, 'x', k + off))))
    node = I.new(cls, children=children)
    o = I.call(cls.evaluate, node, state)
    m = I.nevents() - nfirst                    # events after the head
    if not o.raised:
        I.check('value_is_left_fold', I.same(o.value, acc(n - 1)))
        I.check('operands_and_operators_once_in_order', I.same(I.trace(), tr(n - 1)))
        return o
    if is_stub_error(I, o.exc, 'op'):
        j = o.exc.index
        I.check('operator_error_propagates_at_once', I.same(I.trace(), tr(j + 1)))
    elif is_stub_error(I, o.exc, 'x'):
        j = o.exc.index - off
        I.check('operand_error_propagates_at_once', I.same(I.trace(), I.push(tr(j), I.ev('x', j + off, state))))
    else: I.fail('no_other_error', 'raised %r' % (o.exc,))
    return o

def _chain(I, cls):
    state = I.new(State())
    n = I.int('n', lo=1)
    xs = exprs(I, 'x', n)
    ops = opnodes(I, n - 1)
    if I.concrete and bad(I, 'x', 0): return
    I.assume(I.not_(bad(I, 'x', 0)))
    run_chain(I, cls, I.interleave(xs, ops, n), state, n, ret(I, 'x', 0), I.push(I.nil, I.ev('x', 0, state)), 1, 1)

@contract('C08', 'NODES.chain_expression.evaluate (xterm)')
def term_chain(I): _chain(I, nodes().xterm)
@contract('C08', 'NODES.chain_expression.evaluate (xshift_expr)')
def shift_chain(I): _chain(I, nodes().xshift_expr)
@contract('C08', 'NODES.xarith_expr._prepare', 'NODES.chain_expression.evaluate')
def arith_chain(I): _chain(I, nodes().xarith_expr)

@contract('C08', 'NODES.xarith_expr._prepare (unary minus)')
def arith_negated(I):
    "- x0 op0 x1 ...: minus applies to the first term"
    N = nodes()
    state = I.new(State())
    n = I.int('n', lo=1)
    xs = exprs(I, 'x', n)
    ops = opnodes(I, n - 1)
    I.assume(I.not_(bad(I, 'x', 0)))
    v = ret(I, 'x', 0)
    neg = I.new(N.xneg, type='neg')
    children = I.seqcat([neg], I.interleave(xs, ops, n))
    # any operand for which Python's unary minus is defined; None stays None
    o0 = I.outcome(lambda: I.op('neg', v))
    if o0.raised: return
    if I.is_none(v): return
    run_chain(I, N.xarith_expr, children, state, n, o0.value, I.push(I.nil, I.ev('x', 0, state)), 1, 1)

@contract('C08', 'NODES.xpow_expr.evaluate')
def pow_chain(I):
    "x0 ** x1 ** ... ** xm = x0 ** (x1 ** (... ** xm)); operands evaluated left to right, before any operator"
    N = nodes()
    state = I.new(State())
    n = I.int('n', lo=1)
    xs = exprs(I, 'x', n)
    ops = opnodes(I, n - 1)
    acc = I.rec('acc', 'val', ret(I, 'x', n - 1), lambda k, a: I.f('op_val', 'val', n - 2 - k, ret(I, 'x', n - 2 - k), a))
    tr = evaltrace(I, 'x', state)
    trace_ops = I.rec('trops', 'val', tr(n), lambda k, t: I.push(t, I.ev('op', n - 2 - k, ret(I, 'x', n - 2 - k), acc(k))))
    I.list_hint('x downwards', lambda i: ret(I, 'x', i), lambda k: n - 1 - k)
    I.list_hint('x', lambda i: ret(I, 'x', i))
    node = I.new(N.xpow_expr, children=I.interleave(xs, ops, n))
    o = I.call(N.xpow_expr.evaluate, node, state)
    if not o.raised:
        I.check('value_is_right_fold', I.same(o.value, acc(n - 1)))
        I.check('operands_left_to_right_once', I.same(I.trace(), trace_ops(n - 1)))
    elif is_stub_error(I, o.exc, 'x'):
        j = o.exc.index
        I.check('operand_error_propagates_at_once', I.same(I.trace(), tr(j + 1)))
    elif is_stub_error(I, o.exc, 'op'):
        j = n - 2 - o.exc.index
        I.check('operator_error_propagates_at_once', I.same(I.trace(), trace_ops(j + 1)))
    else: I.fail('no_other_error', 'raised %r' % (o.exc,))

# ------------------------------------------------------------------------------------------------- chains of one operator

def _simple(I, cls):
    state = I.new(State())
    n = I.int('n', lo=1)
    xs = exprs(I, 'x', n)
    I.assume(I.not_(bad(I, 'x', 0)))
    def oper(a, b):
        I.event('oper', a, b)
        return I.f('oper_val', 'val', a, b)
    acc = I.rec('acc', 'val', ret(I, 'x', 0), lambda k, a: I.f('oper_val', 'val', a, ret(I, 'x', k + 1)))
    tr = I.rec('tr', 'val', I.push(I.nil, I.ev('x', 0, state)), lambda k, t: I.push(t, I.ev('x', k + 1, state), I.ev('oper', acc(k), ret(I, 'x', k + 1))))
    node = I.new(cls, children=xs, oper=I.stub(oper))
    o = I.call(cls.evaluate, node, state)
    if not o.raised:
        I.check('value_is_left_fold', I.same(o.value, acc(n - 1)))
        I.check('operands_once_in_order', I.same(I.trace(), tr(n - 1)))
    elif is_stub_error(I, o.exc, 'x'):
        j = o.exc.index
        I.check('operand_error_propagates_at_once', I.same(I.trace(), I.push(tr(j - 1), I.ev('x', j, state))))
    else: I.fail('no_other_error', 'raised %r' % (o.exc,))

@contract('C08', 'NODES.simple_chain_expression.evaluate')
def simple_chain(I): _simple(I, I.choice('cls', [nodes().xand_expr, nodes().xxor_expr, nodes().xor_expr, nodes().xpipeline]))

@contract('C08', 'NODES.xand_expr.oper', 'NODES.xxor_expr.oper', 'NODES.xor_expr.oper')
def bitwise_operators(I):
    N = nodes()
    cls, name = I.choice('op', [(N.xand_expr, 'and'), (N.xxor_expr, 'xor'), (N.xor_expr, 'or')])
    import operator
    x, y = I.val('x'), I.val('y')
    pyop = {'and': operator.and_, 'xor': operator.xor, 'or': operator.or_}[name]
    o0 = I.outcome(lambda: I.op(pyop, x, y))
    node = I.new(cls)
    o = I.outcome(lambda: I.call(I.getattr(node, 'oper'), *([x, y])).value) if False else I.call(cls.__dict__['oper'].__func__ if isinstance(cls.__dict__['oper'], staticmethod) else cls.__dict__['oper'], x, y)
    if not o0.raised: I.check('operator', ok_eq(I, o, o0.value))

def ok_eq(I, o, v): return (not o.raised) and (I.same(o.value, v) if not I.concrete else (o.value == v))

def _lazy(I, cls, stop):
    "and/or: evaluates operands in order up to and including the first one whose truth value is `stop`; its value is the result"
    state = I.new(State())
    n = I.int('n', lo=1)
    xs = exprs(I, 'x', n)
    tr = evaltrace(I, 'x', state)
    # every operand before the last one evaluated has the other truth value
    go = I.rec('go', 'bool', True, lambda k, b: I.and_(b, I.truth(ret(I, 'x', k)) if not stop else I.not_(I.truth(ret(I, 'x', k)))))
    I.index_hint('x', lambda k: ret(I, 'x', k))
    node = I.new(cls, children=xs)
    o = I.call(cls.evaluate, node, state)
    m = I.nevents()                      # number of operands evaluated
    I.check('evaluates_a_prefix_once_in_order', I.and_(m >= 1, m <= n, I.same(I.trace(), tr(m))))
    I.check('all_previous_decided_to_go_on', go(m - 1))
    if o.raised:
        I.check('only_operand_errors', is_stub_error(I, o.exc, 'x', m - 1))
        return
    I.check('value_of_last_evaluated', I.same(o.value, ret(I, 'x', m - 1)))
    I.check('stops_only_when_decided', I.or_(I.eq(m, n), I.iff(I.truth(ret(I, 'x', m - 1)), stop)))

@contract('C08', 'NODES.xand_test.evaluate')
def and_test(I): _lazy(I, nodes().xand_test, False)
@contract('C08', 'NODES.xor_test.evaluate')
def or_test(I): _lazy(I, nodes().xor_test, True)

@contract('C08', 'NODES.xnot_test.evaluate')
def not_test(I):
    N = nodes()
    state = I.new(State())
    k = I.choice('number of nots', [1, 2, 3, 4, 5])
    children = I.list([I.new(N.xnot, 'not%d' % i, type='not') for i in range(k)] + [expr(I, 'x', type='expr')])
    o = I.call(N.xnot_test.evaluate, I.new(N.xnot_test, children=children), state)
    v = I.f('x_ret', 'val')
    I.check('evaluated_once', I.same(I.trace(), I.push(I.nil, I.ev('x', state))))
    if I.f('x_raises', 'bool'): I.check('error_propagates', is_stub_error(I, o.exc, 'x'))
    else: I.check('negation', (not o.raised) and I.same(o.value, I.not_(I.truth(v)) if k % 2 else I.truth(v)))

@contract('C08', 'NODES.xifelse_test.evaluate')
def ifelse(I):
    N = nodes()
    state = I.new(State())
    n = I.choice('children', [2, 3])
    children = I.list([expr(I, 'a'), expr(I, 'c'), expr(I, 'b')][:n])
    o = I.call(N.xifelse_test.evaluate, I.new(N.xifelse_test, children=children), state)
    t = I.push(I.nil, I.ev('c', state))
    if I.f('c_raises', 'bool'):
        I.check('condition_error', is_stub_error(I, o.exc, 'c'))
    elif I.truth(I.f('c_ret', 'val')):
        t = I.push(t, I.ev('a', state))
        if I.f('a_raises', 'bool'): I.check('branch_error', is_stub_error(I, o.exc, 'a'))
        else: I.check('true_branch', ok(I, o, I.f('a_ret', 'val')))
    elif n == 3:
        t = I.push(t, I.ev('b', state))
        if I.f('b_raises', 'bool'): I.check('branch_error', is_stub_error(I, o.exc, 'b'))
        else: I.check('false_branch', ok(I, o, I.f('b_ret', 'val')))
    else: I.check('missing_else_is_empty_string', ok(I, o, ''))
    I.check('only_the_chosen_branch_evaluated', I.same(I.trace(), t))

@contract('C08', 'NODES.xcomparison.evaluate')
def comparison(I):
    "x0 op0 x1 op1 x2 ...: (x0 op0 x1) and (x1 op1 x2) and ..., each operand evaluated at most once"
    N = nodes()
    state = I.new(State())
    n = I.int('n', lo=2)
    xs = exprs(I, 'x', n)
    ops = opnodes(I, n - 1)
    I.assume(I.not_(bad(I, 'x', 0)))
    cmp_ = lambda k: I.f('op_val', 'val', k, ret(I, 'x', k), ret(I, 'x', k + 1))
    tr = I.rec('tr', 'val', I.push(I.nil, I.ev('x', 0, state)), lambda k, t: I.push(t, I.ev('x', k + 1, state), I.ev('op', k, ret(I, 'x', k), ret(I, 'x', k + 1))))
    go = I.rec('go', 'bool', True, lambda k, b: I.and_(b, I.truth(cmp_(k))))
    I.index_hint('x', lambda k: ret(I, 'x', k))
    I.index_hint('cmp', cmp_)
    node = I.new(N.xcomparison, children=I.interleave(xs, ops, n))
    o = I.call(N.xcomparison.evaluate, node, state)
    if o.raised:
        if is_stub_error(I, o.exc, 'x'): I.check('stops_at_operand_error', I.same(I.trace(), I.push(tr(o.exc.index - 1), I.ev('x', o.exc.index, state))))
        elif is_stub_error(I, o.exc, 'op'): I.check('stops_at_operator_error', I.same(I.trace(), tr(o.exc.index + 1)))
        else: I.fail('no_other_error', 'raised %r' % (o.exc,))
        return
    m = (I.nevents() - 1) // 2              # number of comparisons made
    I.check('comparisons_once_in_order', I.and_(m >= 1, m <= n - 1, I.same(I.trace(), tr(m))))
    I.check('previous_comparisons_true', go(m - 1))
    I.check('value_of_last_comparison', I.same(o.value, cmp_(m - 1)))
    I.check('stops_only_at_a_false_one', I.or_(I.eq(m, n - 1), I.not_(I.truth(cmp_(m - 1)))))

@contract('C08', 'NODES.xconcat_expr.evaluate', 'STR')
def concat(I):
    "values converted to strings and concatenated without separator; None is an error"
    N = nodes()
    state = I.new(State())
    n = I.int('n', lo=0)
    xs = exprs(I, 'x', n)
    acc = I.rec('acc', 'str', '', lambda k, a: a + I.strof(ret(I, 'x', k)))
    tr = evaltrace(I, 'x', state)
    o = I.call(N.xconcat_expr.evaluate, I.new(N.xconcat_expr, children=xs), state)
    m = I.nevents()
    I.check('operands_once_in_order', I.same(I.trace(), tr(m)))
    if o.raised:
        I.check('only_operand_errors_or_none', I.or_(bad(I, 'x', m - 1), I.is_none(ret(I, 'x', m - 1))))
        return
    I.check('all_evaluated', I.eq(m, n))
    I.check('value', I.eq(o.value, acc(n)))

# ------------------------------------------------------------------------------------------------- collections

def _collection(I, cls, pytype):
    N = nodes()
    state = I.new(State())
    n = I.int('n', lo=0)
    xs = exprs(I, 'x', n)
    tr = evaltrace(I, 'x', state)
    node = I.new(cls, children=xs)
    o = I.call(cls.evaluate, node, state)
    m = I.nevents()
    I.check('items_once_in_order', I.same(I.trace(), tr(m)))
    if o.raised:
        I.check('only_item_errors', is_stub_error(I, o.exc, 'x', m - 1))
        return
    I.check('all_evaluated', I.eq(m, n))
    I.check('type', I.isinst(o.value, pytype))
    I.check_seq('elements', o.value, n, lambda i: ret(I, 'x', i))
    if pytype is list:
        again = I.call(cls.evaluate, node, state)
        I.check('new_list_every_time', again.raised or again.value is not o.value)

@contract('C08', 'NODES.xlist.evaluate')
def list_display(I): _collection(I, nodes().xlist, list)
@contract('C08', 'NODES.xtuple.evaluate')
def tuple_display(I): _collection(I, I.choice('cls', [nodes().xtuple, nodes().xexpr_tuple]), tuple)

@contract('C08', 'NODES.xset.evaluate')
def set_display(I):
    N = nodes()
    state = I.new(State())
    n = I.int('n', lo=0)
    xs = exprs(I, 'x', n)
    tr = evaltrace(I, 'x', state)
    o = I.call(N.xset.evaluate, I.new(N.xset, children=xs), state)
    m = I.nevents()
    I.check('items_once_in_order', I.same(I.trace(), tr(m)))
    if o.raised: I.check('only_item_errors', is_stub_error(I, o.exc, 'x', m - 1)); return
    I.check('all_evaluated', I.eq(m, n))
    I.check('set_of_items', I.set_of(o.value, n, lambda i: ret(I, 'x', i)))

@contract('C08', 'NODES.xdict.evaluate')
def dict_display(I):
    "{k0: v0, k1: v1, ...}: key and value of each pair evaluated in order; later keys override"
    N = nodes()
    state = I.new(State())
    n = I.int('n', lo=0)
    ks, vs = exprs(I, 'x', n), exprs(I, 'y', n)
    tr = I.rec('tr', 'val', I.nil, lambda k, t: I.push(t, I.ev('x', k, state), I.ev('y', k, state)))
    children = I.seqmap('kids', 2 * n, lambda i: ks, lambda i: vs) if False else I.zipseq(ks, vs, n)
    acc = I.rec('acc', 'dict', I.dict(), lambda k, d: I.dict_set(d, ret(I, 'x', k), ret(I, 'y', k)))
    I.list_hint('pairs', lambda k: (ret(I, 'x', k), ret(I, 'y', k)))
    o = I.call(N.xdict.evaluate, I.new(N.xdict, children=children), state)
    if o.raised:
        if is_stub_error(I, o.exc, 'x'): I.check('stops_at_key_error', I.same(I.trace(), I.push(tr(o.exc.index), I.ev('x', o.exc.index, state))))
        elif is_stub_error(I, o.exc, 'y'): I.check('stops_at_value_error', I.same(I.trace(), tr(o.exc.index + 1)))
        else: I.check('unhashable_key_only', I.concrete and isinstance(o.exc, TypeError), 'raised %r' % (o.exc,))
        return
    I.check('pairs_once_in_order', I.same(I.trace(), tr(n)))
    I.check('value', I.eq(o.value, acc(n)))

# ------------------------------------------------------------------------------------------------- calls, items, members

@contract('C08', 'NODES.xslice_value.evaluate', 'NODES.xindex.apply')
def index(I):
    N = nodes()
    state = I.new(State())
    obj = I.val('obj')
    m = I.choice('subscript', [1, 2, 3])
    if m == 1:
        children = I.list([expr(I, 'i')])
        o = I.call(N.xindex.apply, I.new(N.xindex, children=children), obj, state)
        I.check('index_evaluated_once', I.same(I.trace(), I.push(I.nil, I.ev('i', state))))
        if I.f('i_raises', 'bool'): I.check('index_error_propagates', is_stub_error(I, o.exc, 'i')); return
        want = I.outcome(lambda: I.op('getitem', obj, I.f('i_ret', 'val')))
        I.check('item', o.raised == want.raised and (o.raised or I.same(o.value, want.value)))
        return
    present = [I.fork('has%d' % i) for i in range(m)]
    names = ['i', 'j', 'k'][:m]
    kids = []
    for p, nm in zip(present, names):
        s = I.new(N.xslice_value, nm, children=I.list([expr(I, nm)] if p else []))
        kids.append(s)
    o = I.call(N.xindex.apply, I.new(N.xindex, children=I.list(kids)), obj, state)
    t = I.nil
    vals = []
    for p, nm in zip(present, names):
        if p:
            t = I.push(t, I.ev(nm, state))
            if I.f(nm + '_raises', 'bool'):
                I.check('bound_error_propagates', is_stub_error(I, o.exc, nm) and I.same(I.trace(), t)); return
            vals.append(I.f(nm + '_ret', 'val'))
        else: vals.append(None)
    I.check('bounds_once_in_order', I.same(I.trace(), t))
    want = I.outcome(lambda: I.op('getitem', obj, slice(*vals)))
    I.check('slice', o.raised == want.raised and (o.raised or I.same(o.value, want.value)))

@contract('C08', 'NODES.xmember.apply')
def member(I):
    N = nodes()
    class Thing(object): pass
    class Mapping(dict): pass
    x = I.choice('object', [Thing, Mapping])(); v = I.val('v')
    if isinstance(x, dict): dict.__setitem__(x, 'attr_1', 'an item, not a member')
    x.__dict__['_harness'] = False
    x.__dict__['attr_1'] = v
    name = I.new(N.xname_id, type='name_id', value='attr_1')
    o = I.call(N.xmember.apply, I.new(N.xmember, children=I.list([name])), x, I.new(State()))
    I.check('attribute_value', ok(I, o, v))

def got_fun(I, got):
    def fun(*args, **kwargs):
        I.event('fun')
        got.append((I.starlist(args), kwargs))
        if I.f('fun_raises', 'bool'): I.raise_('fun')
        return I.f('fun_ret', 'val')
    return I.stub(fun)

def _positional(I, cls, apply):
    N = nodes()
    state = I.new(State())
    n = I.int('n', lo=0)
    xs = exprs(I, 'x', n, type='expr')
    got = []
    I.list_hint('values', lambda i: ret(I, 'x', i))
    I.list_hint('items', lambda i: (None, ret(I, 'x', i)))
    I.index_hint('x', lambda k: ret(I, 'x', k))
    node = I.new(cls, children=xs)
    tr = evaltrace(I, 'x', state)
    o, before = apply(node, got_fun(I, got), state)
    if o.raised and is_stub_error(I, o.exc, 'x'):
        I.check('argument_error_propagates', I.same(I.trace(), tr(o.exc.index + 1))); return
    I.check('arguments_once_in_order_then_one_call', I.same(I.trace(), I.push(tr(n), I.ev('fun'))))
    args, kwargs = got[0]
    m = len(before)
    I.check_seq('positional', args, n + m, lambda i: ret(I, 'x', i) if not m else I.ite(I.eq(i, 0), before[0], ret(I, 'x', i - 1)))
    I.check('no_keywords', not kwargs)
    if I.f('fun_raises', 'bool'): I.check('call_error_propagates', is_stub_error(I, o.exc, 'fun'))
    else: I.check('result', ok(I, o, I.f('fun_ret', 'val')))

def _mixed(I, cls, apply):
    "any order of up to 3 positional and keyword arguments"
    N = nodes()
    state = I.new(State())
    shape = I.choice('shape', ['', 'p', 'k', 'pk', 'kp', 'kk', 'ppk', 'pkk', 'kpk', 'kkk'])
    kids = []
    for i, c in enumerate(shape):
        kids.append(I.new(N.expression, 'a%d' % i, type='kwarg' if c == 'k' else 'expr', name='key%d' % i, evaluate=I.fn('a%d' % i, ret='val')))
    got = []
    o, before = apply(I.new(cls, children=I.list(kids)), got_fun(I, got), state)
    t = I.nil
    for i, c in enumerate(shape):
        t = I.push(t, I.ev('a%d' % i, state))
        if I.f('a%d_raises' % i, 'bool'): I.check('argument_error_propagates', is_stub_error(I, o.exc, 'a%d' % i) and I.same(I.trace(), t)); return
    I.check('arguments_once_in_order_then_one_call', I.same(I.trace(), I.push(t, I.ev('fun'))))
    args, kwargs = got[0]
    pos = before + [I.f('a%d_ret' % i, 'val') for i, c in enumerate(shape) if c == 'p']
    I.check_seq('positional', args, len(pos), lambda i: pos[i])
    keys = ['key%d' % i for i, c in enumerate(shape) if c == 'k']
    I.check('keyword_names', sorted(kwargs) == keys)
    for k in keys: I.check('keyword_values', I.same(kwargs[k], I.f('a%s_ret' % k[3:], 'val')))
    if I.f('fun_raises', 'bool'): I.check('call_error_propagates', is_stub_error(I, o.exc, 'fun'))
    else: I.check('result', ok(I, o, I.f('fun_ret', 'val')))

def _call(I): return lambda node, fun, state: (I.call(nodes().xcall.apply, node, fun, state), [])
def _pipe(I):
    subject = I.val('subject')
    def apply(node, fun, state):
        o = I.call(nodes().xpartial_call.apply, node, fun, state)
        return (o if o.raised else I.call(nodes().xpipeline.oper, subject, o.value)), [subject]
    return apply

@contract('C08', 'NODES.xcall.apply', 'NODES.xcall._evaluate_args')
def call(I):
    "f(x0, x1, ...): arguments evaluated left to right, once; then f called once with them"
    _positional(I, nodes().xcall, _call(I))
@contract('C08', 'NODES.xcall.apply', 'NODES.xcall._evaluate_args', bounded=True)
def call_keywords(I): _mixed(I, nodes().xcall, _call(I))
@contract('C08', 'NODES.xpartial_call.apply', 'partial', 'NODES.xpipeline.oper')
def pipeline(I):
    "x : fun(x0, x1, ...) calls fun(x, x0, x1, ...)"
    _positional(I, nodes().xpartial_call, _pipe(I))
@contract('C08', 'NODES.xpartial_call.apply', 'partial', 'NODES.xpipeline.oper', bounded=True)
def pipeline_keywords(I): _mixed(I, nodes().xpartial_call, _pipe(I))

@contract('C08', 'NODES.static_operator.setup', 'NODES.static_operator.ops')
def operator_table(I):
    "every operator symbol denotes the Python operator it looks like"
    import operator
    N = nodes()
    table = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '%': operator.mod, '**': operator.pow,
             '<<': operator.lshift, '>>': operator.rshift, '<': operator.lt, '>': operator.gt, '==': operator.eq, '>=': operator.ge, '<=': operator.le,
             '!=': operator.ne, '<>': operator.ne, 'is': operator.is_, 'is not': operator.is_not}
    sym = I.choice('operator', sorted(table) + ['is   not'])
    node = I.new(N.static_operator, text=I.stub(lambda: sym))
    I.run(N.static_operator.setup, node)
    x, y = I.val('x'), I.val('y')
    want = I.outcome(lambda: I.op2(table[' '.join(sym.split())], x, y))
    I.clear_trace()
    if want.raised: return
    o = I.call(I.getattr(node, 'apply'), x, y)
    if I.concrete: I.check('operator', not o.raised and (o.value == want.value))
    elif not o.raised: I.check('operator', I.same(o.value, want.value))
    else: I.check('error_only_of_the_operator', type(o.exc).__name__ == 'OpError')

@contract('C08', 'NODES.static_operator.ops (in, not in)')
def membership(I):
    N = nodes()
    n = I.int('n', lo=0)
    items = I.vals('items', n)
    x = I.val('x')
    sym = I.choice('operator', ['in', 'not in', 'not  in'])
    node = I.new(N.static_operator, text=I.stub(lambda: sym))
    I.run(N.static_operator.setup, node)
    want = I.contains(items, x)
    o = I.call(I.getattr(node, 'apply'), x, items)
    I.check('membership', (not o.raised) and I.iff(I.truth(o.value), want if sym == 'in' else I.not_(want)))

@contract('C08', 'NODES.xnumber.setup', 'NODES.xboolean.setup', 'NODES.xnone.setup', 'NODES.literal.evaluate', 'NODES.xstring_raw.setup', bounded=True)
def literals(I):
    N = nodes()
    cls, text, want = I.choice('literal', [(N.xnumber, '12', 12), (N.xnumber, '0', 0), (N.xnumber, '1.5', 1.5), (N.xnumber, '2e3', 2000.0), (N.xboolean, 'True', True),
        (N.xboolean, 'False', False), (N.xnone, 'None', None), (N.xstring_raw, "r'a\\nb'", 'a\\nb'), (N.xstring_raw, 'r""', '')])
    node = I.new(cls, text=I.stub(lambda: text))
    I.run(cls.setup, node)
    o = I.call(cls.evaluate, node, I.new(State()))
    I.check('value', (not o.raised) and type(o.value) is type(want) and o.value == want)

@contract('C08', 'NODES.variable.evaluate', 'Slot.get')
def variable_use(I):
    "a variable evaluates to the value of its slot; an unset slot is an error"
    N = nodes()
    state = I.new(State())
    v = I.val('v')
    isset = I.bool('set')
    def get(st):
        I.event('get', st)
        if not isset: I.exc(KeyError('x'))
        return v
    from hypertag.core.structs import Slot
    slot = I.new(Slot, get=I.stub(get))
    node = I.new(N.xvar_use, name='x', slot_read=slot, tree=None)
    o = I.call(N.xvar_use.evaluate, node, state)
    if isset: I.check('value', ok(I, o, v))
    else: I.check('unbound_error', o.is_exc(ast().UnboundLocalEx))
    I.check('read_once', I.same(I.trace(), I.push(I.nil, I.ev('get', state))))

class Ref: pass

@contract('C08', 'nifty.parsing.ParsimoniousTree.rewrite')
def raw_tree(I):
    "the nodes of the parse become nodes of the expression in order; spaces are dropped, groupings give their items, an operator level with a single operand gives this operand"
    m = ast()
    T = m.HypertagAST
    kind = I.choice('kind', ['group', 'space', 'level', 'compact', 'plain'])
    name = I.choice('name', {'group': [''], 'space': ['ws', 'space', 'comma'], 'level': ['atom', 'subexpr', 'trailer', 'expr_root', 'args'],
                             'compact': ['term', 'arith_expr', 'or_test', 'comparison', 'factor', 'pow_expr'], 'plain': ['var_use', 'tuple', 'list', 'call', 'kwarg', 'filter']}[kind])
    text = I.str('script')
    p, q = I.int('start', lo=0), I.int('end', lo=0)
    q = I.ite(q > I.length(text), I.length(text), q)
    p = I.ite(p > q, q, p)
    n = I.int('n', lo=0)
    raw = I.seq('raw', lambda i: I.elem('raw', i, bare(I, Ref)), n)        # the parts of the parse
    kid = lambda i: I.elem('kid', i, bare(I, m.NODES.node))
    if kind == 'level' and I.truth(I.eq(n, 0)): p = q       # rules of the grammar that are flattened match text only through their parts
    made = n if kind != 'compact' else I.int('made', lo=0)
    tree = I.new(T, 'tree', text=text, _ignore_=set(T._ignore_.split()), _reduce_=set(T._reduce_.split()), _compact_=set(T._compact_.split()))
    tree._rewriteNode = I.stub(lambda a: ((p, q), name, I.seq('kid', kid, made)))
    part = I.new(Ref, 'part', start=p, end=q, expr_name=name, children=raw, text=I.prefix(I.suffix(text, p), q - p))
    o = I.call(I.getattr(tree, 'rewrite'), part)
    I.check('no_exception', not o.raised, note=repr(o.exc))
    if o.raised: return
    if kind == 'space': I.check('dropped', I.eq(I.length(o.value), 0)); return
    if kind == 'group' or (kind == 'level' and I.truth(n > 0)):
        I.check_seq('items', o.value, n, kid); return
    if kind == 'level':
        I.check('nothing', I.eq(I.length(o.value), 0)); return
    if kind == 'compact' and I.truth(I.eq(made, 1)): I.check('the_operand', I.same(o.value, kid(0))); return
    I.check('node', type(o.value) is getattr(m.NODES, 'x' + name) if I.concrete else getattr(o.value, 'cls', type(o.value)) is getattr(m.NODES, 'x' + name))
    I.check_seq('children', I.getattr(o.value, 'children'), made, kid)

@contract('C08', 'NODES.xstring_raw.setup', 'NODES.literal.evaluate')
def raw_string(I):
    "the value of r'...' is exactly the text between the quotes, whatever it is"
    N = nodes()
    q, s = I.choice('quote', ["'", '"']), I.str('contents')
    node = I.new(N.xstring_raw, text=I.stub(lambda *a: 'r' + q + s + q))
    I.run(I.getattr(node, 'setup'))
    I.check('value', I.eq(I.run(I.getattr(node, 'evaluate'), I.new(State())), s))

@contract('C08', 'NODES.xcall._evaluate_args')
def arguments(I):
    "any number of positional and keyword arguments, mixed in any order: each one evaluated once, in order; positional values in order, keyword values under their names"
    N = nodes()
    state = I.new(State())
    n = I.int('n', lo=0)
    kw = lambda i: I.f('keyword', 'bool', i)
    key = lambda i: I.f('key', 'str', i)
    def mk(i):
        def evaluate(st):
            I.event('x', i, st)
            if I.f('x_raises', 'bool', i): I.raise_('x', i)
            return ret(I, 'x', i)
        cls = N.xkwarg if I.concrete and kw(i) else N.expression
        return I.elem('arg', i, bare(I, cls, type=I.ite(kw(i), 'kwarg', 'expr'), name=I.ite(kw(i), key(i), None), evaluate=I.stub(evaluate)))
    xs = I.seq('x', mk, n)
    tr = evaltrace(I, 'x', state)
    pos = I.rec('pos', 'list', I.list([]), lambda k, l: I.ite_list(kw(k), l, lambda: I.seqcat(l, I.list([ret(I, 'x', k)]))))
    named = I.rec('named', 'dict', I.dict({}), lambda k, d: I.ite_dict(kw(k), I.dict_set(d, key(k), ret(I, 'x', k)), lambda: d))
    I.list_hint('items', lambda i: (I.ite(kw(i), key(i), None), ret(I, 'x', i)))
    o = I.call(I.getattr(I.new(N.xcall, children=xs), '_evaluate_args'), state)
    if o.raised:
        I.check('argument_error_propagates', is_stub_error(I, o.exc, 'x') and I.same(I.trace(), tr(o.exc.index + 1))); return
    I.check('once_in_order', I.same(I.trace(), tr(n)))
    args, kwargs = o.value
    I.check('positional', I.items_eq(args, pos(n)))
    I.check('keyword', I.same(kwargs, named(n)))

@contract('C08', 'NODES.xstring_format.evaluate')
def format_string(I):
    "a formatted string is the concatenation of its pieces, each rendered once, in order"
    from contracts.c01 import renders, cat_of, tr_of, check_joined
    N = nodes()
    state = I.new(State())
    n = I.int('n', lo=0)
    cat, tr = cat_of(I, 'p'), tr_of(I, 'p', state)
    node = I.new(N.xstring_format, children=renders(I, 'p', n))
    o = I.call(I.getattr(node, 'evaluate'), state)
    check_joined(I, o, 'p', state, n, cat, tr)

@contract('C08', 'NODES.xkwarg.setup', 'NODES.xkwarg.evaluate')
def keyword_argument(I):
    "name=expression: the name as written; evaluation is that of the expression, once"
    N = nodes()
    state = I.new(State())
    name = I.str('name')
    kw = I.new(N.xkwarg, 'kwarg', children=[I.new(N.xname_id, 'id', type='name_id', value=name), expr(I, 'x')])
    I.run(I.getattr(kw, 'setup'))
    I.check('name', I.same(I.getattr(kw, 'name'), name))
    o = I.call(I.getattr(kw, 'evaluate'), state)
    if o.raised: I.check('error_of_the_expression', is_stub_error(I, o.exc, 'x'))
    else: I.check('value', I.same(o.value, I.f('x_ret', 'val')))
    I.check('evaluated_once', I.same(I.trace(), I.push(I.nil, I.ev('x', state))))
