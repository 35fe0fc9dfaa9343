"C09: assignments, unpacking, in-place operators, expression blocks."
from vc.contract import contract
from contracts.lib import *

def targets(I, name, n):
    "assignment targets: target i records the event (name, i, state, value); it may raise"
    N = nodes()
    def mk(i):
        def assign(st, v):
            I.event(name, i, st, v)
            if I.f(name + '_raises', 'bool', i): I.raise_(name, i)
        return I.elem(name, i, bare(I, N.xvar_def, type='var_def', assign=I.stub(assign)))
    return I.seq(name, mk, n)

@contract(['C09', 'C17'], 'NODES.xblock_assign.setup', 'NODES.xblock_assign.translate')
def assignment(I):
    "right-hand side once, then (in place) the current value, the operator, and the assignment; no output"
    N = nodes()
    state = I.new(State())
    op = I.choice('op', [None, '+', '-', '*', '/', '//', '%', '<<', '>>', '&', '|', '^'])
    v, cur = I.val('v'), I.val('cur')
    def evaluate(st): I.event('rhs', st); return I.raise_('rhs') if I.f('rhs_raises', 'bool') else v
    def current(st): I.event('current', st); return I.raise_('current') if I.f('current_raises', 'bool') else cur
    def assign(st, x): I.event('assign', st, x); return I.raise_('assign') if I.f('assign_raises', 'bool') else None
    t = I.new(N.xtargets, 't', type='targets', children=I.list([I.new(N.xvar_def, type='var_def')]), is_augmented=I.stub(lambda: False), is_tuple=I.stub(lambda: False),
              set_inplace=I.stub(lambda: None), evaluate=I.stub(current), assign=I.stub(assign))
    e = I.new(N.expression_root, 'e', type='expr_root', evaluate=I.stub(evaluate))
    q = I.new(N.static, type='qualifier', value='?')
    o = I.new(N.static, type='op_inplace', value=op)
    ch = [t] + ([o] if op else []) + [e] + ([q] if I.fork('qualifier') else [])
    node = I.new(N.xblock_assign, children=I.list(ch))
    I.run(I.getattr(node, 'setup'))
    r = I.call(I.getattr(node, 'translate'), state)
    tr = I.push(I.nil, I.ev('rhs', state))
    if I.f('rhs_raises', 'bool'): I.check('rhs_error', is_stub_error(I, r.exc, 'rhs') and I.same(I.trace(), tr)); return
    new = v
    if op:
        tr = I.push(tr, I.ev('current', state))
        if I.f('current_raises', 'bool'): I.check('unbound', is_stub_error(I, r.exc, 'current') and I.same(I.trace(), tr)); return
        want = I.outcome(lambda: I.op({'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '<<': 'lshift', '>>': 'rshift', '&': 'and', '|': 'or', '^': 'xor'}[op], cur, v))
        if want.raised: I.check('operator_error', r.raised and I.same(I.trace(), tr)); return
        new = want.value
    I.check('assigned_once', I.same(I.trace(), I.push(tr, I.ev('assign', state, new))))
    if I.f('assign_raises', 'bool'): I.check('assignment_error', is_stub_error(I, r.exc, 'assign')); return
    I.check('no_output', (not r.raised) and r.value is None)

@contract(['C09', 'C17'], 'NODES.xtargets.assign', 'NODES.xtargets.is_tuple')
def unpacking(I):
    "with a comma: element by element, exactly as many as targets; otherwise the value as a whole"
    N = nodes()
    state = I.new(State())
    n = I.int('n', lo=1)
    comma = I.fork('trailing_comma')
    src = I.choice('text', ['a,', '(a, b) ,\t'] if comma else ['a', '(a, b)', '(a,) '])
    ts = targets(I, 't', n)
    I.le_hint(n)
    node = I.new(N.xtargets, children=ts, tree=None, text=I.stub(lambda *a: src), pos=None)
    single = I.truth(I.eq(n, 1)) and not comma
    kind = I.choice('value', ['iterable', 'any'] if single else ['iterable'])
    m = I.int('m', lo=0)
    if kind == 'any': value = I.val('value')
    else:
        def item(k):
            if I.f('item_raises', 'bool', k): I.raise_('item', k)
            return I.f('item', 'val', k)
        value = I.generator(m, item)
    if single:
        if kind != 'any': return
        o = I.call(I.getattr(node, 'assign'), state, value)
        I.check('whole_value', I.same(I.trace(), I.push(I.nil, I.ev('t', 0, state, value))))
        if I.f('t_raises', 'bool', 0): I.check('error_of_the_target', is_stub_error(I, o.exc, 't'))
        else: I.check('no_exception', not o.raised)
        return
    tr = I.rec('tr', 'val', I.nil, lambda k, t: I.push(t, I.ev('t', k, state, I.f('item', 'val', k))))
    o = I.call(I.getattr(node, 'assign'), state, value)
    k = I.nevents()
    I.check('in_order_each_once', I.same(I.trace(), tr(k)))
    if not o.raised: I.check('same_number', I.and_(I.eq(m, n), I.eq(k, n))); return
    if is_stub_error(I, o.exc, 't'): I.check('error_of_the_target', I.eq(o.exc.index, k - 1)); return
    if is_stub_error(I, o.exc, 'item'): I.check('error_of_the_iterable', I.eq(o.exc.index, k)); return
    I.check('wrong_number', o.is_exc(ValueError)); located(I, o, node)
    msg = o.exc.args[0]
    I.check('names_the_counts', I.or_(I.and_(m < n, I.mentions(msg, n), I.mentions(msg, m)), I.and_(n < m, I.mentions(msg, n))))
    I.check('only_if_different', I.not_(I.eq(m, n)))
    I.check('all_available_assigned', I.eq(k, I.ite(I.op('lt', m, n), m, n)) if I.concrete else I.or_(I.and_(I.eq(k, m), m < n), I.and_(I.eq(k, n), n < m)))

@contract(['C09', 'C17'], 'NODES.xtargets.evaluate', 'NODES.xtargets.is_augmented', 'NODES.xtargets.set_inplace', 'NODES.xblock_assign.setup')
def inplace_target(I):
    "an in-place assignment takes exactly one plain variable"
    N = nodes()
    kind = I.choice('kind', ['var', 'var_comma', 'two', 'nested'])
    var = I.new(N.xvar_def, 'x', type='var_def', name='x', tree=None, text=I.stub(lambda: 'x'))
    other = I.new(N.xvar_def, 'y', type='var_def', name='y')
    sub = I.new(N.xtargets, 's', type='targets', children=I.list([var, other]))
    ch = {'var': [var], 'var_comma': [var], 'two': [var, other], 'nested': [sub]}[kind]
    src = {'var': 'x', 'var_comma': 'x, ', 'two': 'x, y', 'nested': '(x, y)'}[kind]
    t = I.new(N.xtargets, 't', type='targets', children=I.list(ch), text=I.stub(lambda: src), tree=None)
    e = I.new(N.expression_root, 'e', type='expr_root')
    op = I.new(N.static, type='op_inplace', value='+')
    node = I.new(N.xblock_assign, children=I.list([t, op, e]), tree=None)
    o = I.call(I.getattr(node, 'setup'))
    if kind == 'var': I.check('reads_and_writes', (not o.raised) and I.getattr(var, 'read') is True and I.getattr(var, 'write') is True and I.getattr(other, 'read') is False)
    else: I.check('syntax_error', o.is_exc(SyntaxError)); located(I, o, node)

@contract('C09', 'NODES.variable.assign', 'NODES.variable.evaluate', 'Slot.set', 'Slot.get')
def variable_slots(I):
    "assignment stores the value in the slot of the variable and in no other one; reading takes it from there"
    N = nodes()
    from hypertag.core.structs import Slot, ValueSlot
    s1 = I.new(Slot, 's1', name='x', symbol='$x')
    s2 = I.new(I.choice('cls', [Slot, ValueSlot]), 's2', name='x', symbol='$x')
    values = I.dict({})
    v1, v2, v = I.val('v1'), I.val('v2'), I.val('v')
    if I.fork('s1_set'): I.setitem(values, s1, v1)
    if I.fork('s2_set'): I.setitem(values, s2, v2)
    state = I.new(State(), values=values)
    node = I.new(N.xvar_def, name='x', read=True, slot_read=s2, slot_write=s1, tree=None)
    r0 = I.call(I.getattr(node, 'evaluate'), state)
    I.run(I.getattr(node, 'assign'), state, v)
    I.check('stored', I.same(I.run(I.getattr(s1, 'get'), state), v))
    r1 = I.call(I.getattr(node, 'evaluate'), state)
    I.check('others_kept', r0.raised == r1.raised and (r0.raised or I.same(r0.value, r1.value)))
    if r0.raised: I.check('unbound', r0.is_exc(UnboundLocalError))
    I.run(I.getattr(s2, 'set'), state, v2)
    r2 = I.call(I.getattr(node, 'evaluate'), state)
    I.check('read_back', ok(I, r2, v2))
    I.check('kept', I.same(I.run(I.getattr(s1, 'get'), state), v))

@contract('C09', 'ValueSlot.set_value')
def value_slot(I):
    from hypertag.core.structs import ValueSlot
    v = I.val('v')
    s = I.new(ValueSlot, name='x', symbol='$x', value=v)
    state = I.new(State(), values=I.dict({}))
    I.run(I.getattr(s, 'set_value'), state)
    I.check('default', I.same(I.run(I.getattr(s, 'get'), state), v))

@contract('C09', 'NODES.xblock_expr.setup', 'NODES.xblock_expr.translate')
def expression_block(I):
    "evaluated once, no output"
    N = nodes()
    state = I.new(State())
    e = I.new(N.expression_root, 'e', evaluate=I.fn('e', ret=lambda st: I.val('v')))
    node = I.new(N.xblock_expr, children=I.list([e]))
    I.run(I.getattr(node, 'setup'))
    o = I.call(I.getattr(node, 'translate'), state)
    I.check('once', I.same(I.trace(), I.push(I.nil, I.ev('e', state))))
    if I.f('e_raises', 'bool'): I.check('error_propagates', is_stub_error(I, o.exc, 'e'))
    else: I.check('no_output', (not o.raised) and o.value is None)

@contract('C09', 'NODES.variable.analyse', 'NODES.xtargets.analyse', 'Slot.__init__', 'NODES.xblock_assign.analyse')
def variable_binding(I):
    """a definition reuses the visible slot of the same depth and creates and pushes a new one otherwise; a read takes the slot
    visible before that; the right-hand side is analysed before the targets"""
    N = nodes()
    from hypertag.core.structs import Slot, Context
    depth = I.int('depth', lo=0)
    d2 = I.int('slot_depth', lo=0)
    visible = I.choice('visible', [True, False])
    old = I.new(Slot, 'old', name='x', symbol='$x', depth=d2)
    got = []
    def push(sym, slot): I.event('push', sym); got.append(slot)
    cur = [old if visible else None]
    ctx = I.new(Context, get=I.stub(lambda sym: got[-1] if got else (old if visible else None)), push=I.stub(push), regular_depth=depth)
    read, write = I.choice('mode', [(True, False), (False, True), (True, True)])
    node = I.new(N.xvar_def, name='x', read=read, write=write, tree=None)
    o = I.call(I.getattr(node, 'analyse'), ctx)
    if read and not visible: I.check('undefined', o.is_exc(NameError)); return
    I.check('no_exception', not o.raised)
    if read: I.check('reads_the_visible_one', I.getattr(node, 'slot_read') is old)
    if write:
        if visible and I.truth(I.eq(d2, depth)):
            I.check('reused', I.getattr(node, 'slot_write') is old and len(got) == 0)
        else:
            w = I.getattr(node, 'slot_write')
            I.check('new_slot', w is not old and len(got) >= 1 and all(g is w for g in got))
            I.check('of_this_depth', I.eq(I.getattr(w, 'depth'), depth))
            I.check('of_this_name', I.getattr(w, 'symbol') == '$x' and I.getattr(w, 'name') == 'x')
