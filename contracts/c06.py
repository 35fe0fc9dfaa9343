"C06: try blocks; restoration of the layout after failures."
from vc.contract import contract
from contracts.lib import *

def dom_elem(I, name, i, ev=True):
    "the DOM number i: only its set_indent may be called"
    def set_indent(ind): I.event(name + '_indent', i, ind)
    return I.elem(name, i, bare(I, domm().DOM, set_indent=I.stub(set_indent)))

def branches(I, name, n, base=Exception, cls=None):
    "clauses: translation of clause i is the event (name, i, state), which raises or gives the DOM number i"
    N = nodes()
    def mk(i):
        def translate(state):
            I.event(name, i, state)
            if I.f(name + '_raises', 'bool', i): I.raise_(name, i, base)
            return dom_elem(I, name + '_dom', i)
        return I.elem(name, i, bare(I, cls or N.clause_else if hasattr(N, 'clause_else') else N.node, type='clause_else', translate=I.stub(translate)))
    return I.seq(name, mk, n)

def is_exception(I, exc):
    if I.concrete: return isinstance(exc, Exception)
    return I.interp.exc_match(exc, Exception)

@contract('C06', 'NODES.xblock_try._select_branch', 'NODES.control_block.translate')
def first_non_failing(I):
    """clauses are translated in order until the first one that does not raise; its DOM is the result, with the indentation of the
    block; all failed: empty; KeyboardInterrupt and the like pass through at once"""
    N = nodes()
    ind = I.str('indentation')
    state = I.new(State(), indentation=ind)
    n = I.int('n', lo=0)
    bs = branches(I, 'br', n, BaseException)
    tr = I.rec('tr', 'val', I.nil, lambda k, t: I.push(t, I.ev('br', k, state)))
    failed = I.rec('failed', 'bool', True, lambda k, g: I.and_(g, I.f('br_raises', 'bool', k)))
    node = I.new(N.xblock_try, children=bs)
    o = I.call(I.getattr(node, 'translate'), state)
    if o.raised:
        I.check('only_errors_of_clauses', is_stub_error(I, o.exc, 'br'))
        I.check('only_those_that_are_not_exceptions', not is_exception(I, o.exc))
        j = o.exc.index
        I.check('passes_through_at_once', I.same(I.trace(), tr(j + 1)))
        I.check('earlier_clauses_failed', failed(j))
        return
    m = I.nevents()
    D = domm().DOM
    if I.isinst(o.value, D) and o.value.__dict__.get('set_indent') is None:
        I.check('empty_result', I.same(I.length(I.getattr(o.value, 'nodes')), 0))
        I.check('all_clauses_failed', failed(n))
        I.check('every_clause_tried_once', I.same(I.trace(), tr(n)))
    else:
        j = m - 2
        I.check('clause_did_not_fail', I.not_(I.f('br_raises', 'bool', j)))
        I.check('earlier_clauses_failed', failed(j))
        I.check('in_order_none_after_it', I.same(I.trace(), I.push(tr(j + 1), I.ev('br_dom_indent', j, ind))))
        I.check('its_content', I.same(o.value, dom_elem(I, 'br_dom', j)))

@contract('C06', 'NODES.body.translate')
def body_restores_indentation(I):
    "whatever the children do to the indentation, and wherever they fail, it is restored; every child is translated once, in order"
    N = nodes()
    ind = I.str('indentation')
    state = I.new(State(), indentation=ind)
    n = I.int('n', lo=0)
    def mk(i):
        def translate(st):
            I.event('ch', i, st)
            I.setattr(st, 'indentation', I.f('ind_after', 'str', i))
            if I.f('ch_raises', 'bool', i): I.raise_('ch', i, BaseException)
            return I.elem('node', i, bare(I, domm().DOM.Node))
        return I.elem('ch', i, bare(I, N.node, type='x', translate=I.stub(translate)))
    tr = I.rec('tr', 'val', I.nil, lambda k, t: I.push(t, I.ev('ch', k, state)))
    I.list_hint('nodes', lambda i: I.elem('node', i, bare(I, domm().DOM.Node)))
    cls = I.choice('cls', ['xbody_control', 'xbody_struct', 'body'])
    node = I.new(getattr(N, cls), children=I.seq('ch', mk, n))
    o = I.call(I.getattr(node, 'translate'), state)
    I.check('indentation_restored', I.same(I.getattr(state, 'indentation'), ind))
    if o.raised:
        I.check('only_errors_of_children', is_stub_error(I, o.exc, 'ch') and I.same(I.trace(), tr(I.nevents())))
        return
    I.check('each_translated_once_in_order', I.same(I.trace(), tr(n)))
    I.check_seq('nodes', I.getattr(o.value, 'nodes'), n, lambda i: I.elem('node', i, bare(I, domm().DOM.Node)))

@contract(['C06', 'C05'], 'NODES.block_text.render', name='text_block_restores_indentation')
def text_block_restores(I):
    N = nodes()
    ind = I.str('indentation')
    state = I.new(State(), indentation=ind)
    n = I.int('n', lo=0)
    def mk(i):
        def render(st):
            I.setattr(st, 'indentation', I.f('ind_after', 'str', i))
            if I.f('ch_raises', 'bool', i): I.raise_('ch', i, BaseException)
            return I.f('ch_str', 'str', i)
        return I.elem('ch', i, bare(I, N.node, type='x', render=I.stub(render)))
    m = ast()
    I.patch(m, 'get_indent', I.stub(lambda text: I.f('get_indent', 'str')))
    I.patch(m, 'del_indent', I.stub(lambda text, indent=None: I.f('del_indent', 'str')))
    cls = I.choice('cls', ['xblock_markup', 'xblock_normal', 'xblock_verbat'])
    I.patch(node_base(), 'column', I.int('column', lo=0))
    node = I.new(getattr(N, cls), children=I.seq('ch', mk, n))
    o = I.call(I.getattr(node, 'render'), state)
    I.check('indentation_restored', I.same(I.getattr(state, 'indentation'), ind))
    if o.raised: I.check('only_errors_of_children', is_stub_error(I, o.exc, 'ch'))

@contract(['C06', 'C12'], 'NODES.xblock_def.expand', name='expansion_restores_state')
def expansion_restores(I):
    "after an expansion, also a failed one, the variables have the values they had before"
    N = nodes()
    ind = I.str('indentation')
    k1, k2 = I.new(Empty), I.new(Empty)
    v1 = I.val('v1')
    values = I.dict({}); values[k1] = v1
    state = I.new(State(), indentation=ind, values=values)
    def disturb(st, name):
        st2 = I.getattr(st, 'values')
        I.setitem(st2, k1, I.f(name + '_v1', 'val')); I.setitem(st2, k2, I.f(name + '_v2', 'val'))
    def append(body, attrs, kw, st, caller):
        disturb(st, 'append')
        if I.f('append_raises', 'bool'): I.raise_('append', None, BaseException)
        return I.dict({})
    def translate(st):
        disturb(st, 'translate')
        if I.f('translate_raises', 'bool'): I.raise_('translate', None, BaseException)
        return I.new(domm().DOM, 'out', nodes=I.list([]))
    body = I.new(N.body, 'body', translate=I.stub(translate))
    node = I.new(N.xblock_def, name='h', body=body, native=None, _append_attrs=I.stub(append))
    o = I.call(I.getattr(node, 'expand'), I.new(domm().DOM, 'b', nodes=I.list([])), (), I.dict({}), state, None)
    final = I.getattr(state, 'values')
    exp = I.dict({}); exp[k1] = v1
    I.check('values_restored', I.same(final, exp))
    if o.raised: I.check('only_errors_of_parts', is_stub_error(I, o.exc, 'append') or is_stub_error(I, o.exc, 'translate'))

class Empty: pass

@contract('C06', 'EmbeddedHypertag.__call__')
def function_call_restores(I):
    "a hypertag used as a function leaves the indentation as it was, also when it fails"
    m = ast()
    ind = I.str('indentation')
    state = I.new(State(), indentation=ind)
    def expand(body, attrs, kw, st, caller):
        I.event('expand', st)
        I.setattr(st, 'indentation', I.f('ind_after', 'str'))
        if I.f('expand_raises', 'bool'): I.raise_('expand', None, BaseException)
        return I.run(domm().DOM.text, I.f('text', 'str'))
    h = I.new(nodes().xblock_def, expand=I.stub(expand))
    e = I.new(m.EmbeddedHypertag, hypertag=h, state=state, caller=None)
    o = I.call(e, 'x') if I.concrete else I.call(I.getattr(e, '__call__'), 'x')
    I.check('indentation_restored', I.same(I.getattr(state, 'indentation'), ind))
    I.check('expanded_once', I.same(I.trace(), I.push(I.nil, I.ev('expand', state))))
    if o.raised: I.check('only_errors_of_the_expansion', is_stub_error(I, o.exc, 'expand'))
    else: I.check('rendered', I.same(o.value, I.f('text', 'str')))
