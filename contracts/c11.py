"C11/C12: hypertags: binding of attributes, body, expansion, use as functions and from other scripts."
from vc.contract import contract
from contracts.lib import *

def D(): return domm().DOM
def slot(I, name):
    from hypertag.core.structs import Slot
    return I.new(Slot, 'slot_' + name, name=name, symbol='$' + name, depth=1, primary=None)
def make_dom(I, name, nodes=()): return I.new(D(), name, nodes=I.list(list(nodes)))

def anode(I, name):
    nop = lambda: I.stub(lambda *a: None)
    return I.new(D().Node, name, margin=False, set_indent=nop(), set_outline=nop(), relative_indent=nop())
def definition(I, d, defaults, has_body, translate):
    "an xblock_def node with d regular attributes; defaults[i]: attribute i has a default expression (a stub)"
    N = nodes()
    attrs = []
    if has_body: attrs.append(I.new(N.xattr_body, 'abody', type='attr_body', name='@', slot=slot(I, 'body')))
    regular = []
    for i in range(d):
        kw = dict(type='attr_def', name='abc'[i], slot=slot(I, 'abc'[i]))
        if defaults[i]: kw['expr'] = I.new(N.expression, 'default%d' % i, evaluate=I.fn('default', index=i))
        regular.append(I.new(N.xattr_def, 'attr%d' % i, **kw))
    body = I.new(N.body, 'formal', type='body_struct', translate=I.stub(translate))
    name = I.new(N.xname_id, 'name', value='h')
    h = I.new(N.xblock_def, 'h', children=I.list([name] + attrs + regular + [body]))
    I.run(I.getattr(h, 'setup'))
    return h, regular, (attrs[0] if has_body else None)

def read(I, state, attr): return I.outcome(lambda: I.item(I.getattr(state, 'values'), I.getattr(attr, 'slot')))

@contract(['C11', 'C12', 'C17'], 'NODES.xblock_def.setup', 'NODES.xblock_def.expand', 'NODES.xblock_def._append_attrs', 'NODES.attribute.assign', bounded=True, budget=400)
def binding(I):
    """up to 3 declared attributes (any defaults, with or without body), up to 4 positional and 2 keyword values: the formal body is
    translated once, with exactly the values Python's rules give, or an error is raised"""
    from hypertag.core.errors import TypeErrorEx, VoidTagEx
    d = I.choice('declared', [0, 1, 2, 3])
    defaults = [I.fork('default%d' % i) for i in range(d)]
    has_body = I.fork('body')
    p = I.choice('positional', list(range(d + 2)))
    kws = I.choice('keywords', [(), ('a',), ('b',), ('c',), ('x',), ('@',), ('b', 'a'), ('c', 'x'), ('x', 'y')])
    if not I.concrete and d < 3 and 'c' in kws and kws != ('c',): kws = ('b', 'x')
    old = I.val('old')
    other = slot(I, 'other')
    values = I.dict({}); I.setitem(values, other, old)
    state = I.new(State(), indentation='\n', values=values)
    out = make_dom(I, 'out', [anode(I, 'inner')])
    seen = []
    def translate(st):
        I.event('translate', st)
        seen.append([read(I, st, a) for a in regular] + ([read(I, st, attr_body)] if has_body else []))
        return out
    h, regular, attr_body = definition(I, d, defaults, has_body, translate)
    vals = [I.val('p%d' % i) for i in range(p)]
    kw = [(k, I.val('k_' + k)) for k in kws]
    full = I.fork('nonempty')
    body = make_dom(I, 'b', [anode(I, 'actual')] if full else [])
    caller = I.new(nodes().xtag_expand, 'caller', tree=None, pos=None)
    kwd = I.dict({})
    for k, v in kw: I.setitem(kwd, k, v)
    o = I.call(I.getattr(h, 'expand'), body, I.list(vals), kwd, state, caller)
    # Python's rules
    names = ['abc'[i] for i in range(d)]
    bound = dict(zip(names, vals)); wrong = p > d
    for k, v in kw:
        if k not in names or k in bound: wrong = True
        bound.setdefault(k, v)
    missing = [i for i in range(d) if names[i] not in bound]
    if any(not defaults[i] for i in missing): wrong = True
    failing = [i for i in missing if defaults[i] and I.truth(I.f('default_raises', 'bool', i))]
    void = full and not has_body
    if o.raised:
        if is_stub_error(I, o.exc, 'default'): I.check('error_of_a_default', len(failing) > 0)
        elif wrong: I.check('wrong_attributes', o.is_exc(TypeErrorEx))
        else: I.check('body_passed_to_a_void_hypertag', void and not failing and o.is_exc(VoidTagEx), note=repr(o.exc))
        I.check('not_translated', not seen)
        if not is_stub_error(I, o.exc, 'default'): located(I, o, caller)
        return
    I.check('accepted', not wrong and not void and not failing)
    I.check('translated_once', len(seen) == 1)
    for i in range(d):
        v = seen[0][i]
        want = bound[names[i]] if names[i] in bound else I.f('default_ret', 'val', i)
        I.check('value_of_attribute', (not v.raised) and I.same(v.value, want))
    if has_body: I.check('body', (not seen[0][d].raised) and seen[0][d].value is body)
    ns = I.getattr(o.value, 'nodes')
    I.check('one_node', I.eq(I.length(ns), 1))
    I.check('contents', I.items_eq(I.getattr(I.getattr(I.item(ns, 0), 'body'), 'nodes'), I.getattr(out, 'nodes')))
    # nothing remains in the state
    exp = I.dict({}); I.setitem(exp, other, old)
    I.check('no_trace_in_the_state', I.same(I.getattr(state, 'values'), exp))

@contract(['C11', 'C17'], 'NODES.xblock_def.setup', bounded=True)
def duplicate_attributes(I):
    "two attributes of the same name are a syntax error, and nothing else is"
    N = nodes()
    ns = [I.choice('n%d' % i, ['a', 'b']) for i in range(I.choice('d', [0, 1, 2, 3]))]
    attrs = [I.new(N.xattr_def, 'attr%d' % i, type='attr_def', name=n) for i, n in enumerate(ns)]
    h = I.new(N.xblock_def, 'h', tree=None, pos=None, children=I.list([I.new(N.xname_id, 'name', value='h')] + attrs + [I.new(N.body, 'formal', type='body_struct')]))
    I.patch(ast(), 'duplicate', I.stub(lambda xs: 'some'))
    o = I.call(I.getattr(h, 'setup'))
    if o.raised: I.check('duplicate', o.is_exc(SyntaxError) and len(set(ns)) < len(ns)); located(I, o, h)
    else: I.check('no_duplicate', len(set(ns)) == len(ns))

@contract(['C11', 'C12'], 'EmbeddedHypertag.__call__')
def call_as_function(I):
    "%H(text, ...) expands H once, in the state of this place, with the text as its body and these attributes; the result is the rendered text"
    m = ast()
    ind = I.str('indentation')
    state = I.new(State(), indentation=ind)
    caller = I.new(nodes().xtag_use, 'caller')
    got = []
    res = I.str('res')
    rendered = I.new(D(), 'res', set_indent=I.fn('set_indent', raises=False, ret=None), render=I.stub(lambda: res))
    def expand(body, attrs, kw, st, cl):
        got.append((body, attrs, kw, st, cl)); return rendered
    h = I.new(nodes().xblock_def, 'h', expand=I.stub(expand))
    e = I.new(m.EmbeddedHypertag, hypertag=h, state=state, caller=caller)
    text, a, b, k = I.str('text'), I.val('a'), I.val('b'), I.val('k')
    other = I.choice('body', ['text', '', 0, False, None])       # any value but None makes a body: its string form
    if other != 'text': text = other
    n = I.choice('args', [0, 1, 2, 3]); kw = {'k': k} if I.fork('keyword') else {}
    o = I.call(I.getattr(e, '__call__'), *[text, a, b][:n], **kw)
    I.check('no_exception', not o.raised)
    I.check('expanded_once', len(got) == 1)
    body, attrs, kws, st, cl = got[0]
    I.check('here', st is state and cl is caller)
    I.check('positional', I.items_eq(I.list(list(attrs)), I.list([a, b][:max(0, n - 1)])))
    I.check('keyword', list(kws) == list(kw) and all(I.truth(I.same(kws[x], kw[x])) for x in kw))
    r = I.call(I.getattr(body, 'render'))
    I.check('body', (not r.raised) and I.same(r.value, '' if n == 0 or text is None else I.strof(text)))
    I.check('empty_body_if_none', I.truth(I.truth(body)) if n > 0 and text is not None else not I.truth(I.truth(body)))
    I.check('text', I.same(o.value, res))

@contract('C12', 'ImportedHypertag.expand')
def imported(I):
    "an imported hypertag is expanded in the state of its own module, whatever the state of the importing script"
    m = ast()
    module_state, state = I.new(State(), 'ms'), I.new(State(), 'st')
    got = []
    r = I.val('result')
    def expand(*a):
        got.append(a)
        if I.f('expand_raises', 'bool'): I.raise_('expand', None, BaseException)
        return r
    h = I.new(nodes().xblock_def, 'h', expand=I.stub(expand))
    e = I.run(m.ImportedHypertag, h, module_state)
    args = [make_dom(I, 'b'), I.list([I.val('a')]), I.dict({'k': I.val('k')})]
    caller = I.new(nodes().xtag_expand, 'caller')
    o = I.call(I.getattr(e, 'expand'), *args, state, caller)
    I.check('expanded_once', len(got) == 1 and len(got[0]) == 5)
    b, attrs, kw, st, cl = got[0]
    I.check('in_its_module', st is module_state)
    I.check('same_arguments', b is args[0] and attrs is args[1] and kw is args[2] and cl is caller)
    if o.raised: I.check('only_errors_of_the_expansion', is_stub_error(I, o.exc, 'expand'))
    else: I.check('result', I.same(o.value, r))

@contract(['C11', 'C12'], 'NODES.xtag_use.evaluate')
def tag_as_value(I):
    "%H in an expression: an external tag is itself; a hypertag is a function that expands it in the state of this place; unset: an error"
    N = nodes(); m = ast()
    from hypertag.core.errors import UnboundLocalEx
    import hypertag.core.tag as t
    state = I.new(State(), indentation='', values=I.dict({}))
    s = slot(I, 'h')
    kind = I.choice('kind', ['external', 'hypertag', 'imported', 'unset'])
    tag = {'external': lambda: I.new(t.Markup, 'markup', name='x'), 'hypertag': lambda: I.new(N.xblock_def, 'h'), 'imported': lambda: I.new(m.ImportedHypertag, 'i')}.get(kind, lambda: None)()
    if kind != 'unset': I.setitem(I.getattr(state, 'values'), s, tag)
    node = I.new(N.xtag_use, symbol='%h', slot=s, tree=None, pos=None)
    o = I.call(I.getattr(node, 'evaluate'), state)
    if kind == 'unset': I.check('error', o.is_exc(UnboundLocalEx)); return
    I.check('no_exception', not o.raised)
    if kind == 'external': I.check('itself', o.value is tag); return
    I.check('function_of_this_hypertag', isinstance(o.value, m.EmbeddedHypertag) and I.getattr(o.value, 'hypertag') is tag and I.getattr(o.value, 'state') is state)

@contract(['C11', 'C05', 'C17'], 'NODES.xblock_embed.translate')
def embedding(I):
    "@expr: a copy of the DOM, node or nodes the expression evaluates to, with the indentation of this place; the original stays as it is"
    N = nodes()
    ind = I.str('indentation')
    state = I.new(State(), indentation=ind)
    kind = I.choice('kind', ['dom', 'node', 'list', 'number', 'error'])
    n = I.int('n', lo=0)
    def mk(i):
        def copy(): I.event('copy', i); return I.elem('copied', i, bare(I, D().Node, set_indent=I.stub(lambda x, i=i: I.event('indent', i, x))))
        return I.elem('x', i, bare(I, D().Node, copy=I.stub(copy), set_indent=I.stub(lambda x: I.fail('original_modified'))))
    copied = make_dom(I, 'copied'); copied.set_indent = I.fn('set_indent', raises=False, ret=None)
    x = mk(0)
    dom = I.new(D(), 'dom', nodes=I.list([]), copy=I.stub(lambda: copied), set_indent=I.stub(lambda i: I.fail('original_modified')))
    value = {'dom': lambda: dom, 'node': lambda: x, 'list': lambda: I.seq('x', mk, n), 'number': lambda: 5, 'error': lambda: None}[kind]()
    def evaluate(st):
        if kind == 'error': I.raise_('e', None, BaseException)
        return value
    node = I.new(N.xblock_embed, expr=I.new(N.expression, 'e', evaluate=I.stub(evaluate)), tree=None, pos=None)
    I.list_hint('x', mk)
    if not I.concrete and kind != 'dom':
        I.contract(D().copy, lambda self: make_copied(I, self, copied))
    elif kind in ('list', 'node'):
        pass
    o = I.call(I.getattr(node, 'translate'), state)
    if kind == 'error': I.check('error_propagates', is_stub_error(I, o.exc, 'e')); return
    if kind == 'number': I.check('type_error', o.is_exc(TypeError)); located(I, o, node); return
    I.check('no_exception', not o.raised)
    if kind == 'dom':
        I.check('copy', o.value is copied)
        I.check('indentation_of_this_place', I.same(I.trace(), I.push(I.nil, I.ev('set_indent', ind))))
    elif not I.concrete:
        I.check('copy_of_the_nodes', o.value is copied and len(COPIED) == 1)
        I.check_seq('nodes', I.getattr(COPIED[0], 'nodes'), 1 if kind == 'node' else n, mk)
        I.check('indentation_of_this_place', I.same(I.trace(), I.push(I.nil, I.ev('set_indent', ind))))
    else:
        I.check('new_nodes', len(o.value.nodes) == (1 if kind == 'node' else n))
COPIED = []
def make_copied(I, dom, copied):
    COPIED[:] = [dom]
    return copied
