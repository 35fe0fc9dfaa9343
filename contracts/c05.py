"C05: indentation, outline/inline placement, margins."
from vc.contract import contract
from contracts.lib import *

def D(): return domm().DOM
def whitespace(I, name):
    "an indentation: a string of spaces and tabs (arbitrary here, but without newlines and backslashes)"
    s = I.str(name, alphabet=' \t')
    for c in '\n\\': I.assume(I.not_(I.contains(s, c)))
    return s

# ------------------------------------------------------------------------------------------------------------ text functions

@contract('C05', 'dom.add_indent')
def add_indent(I):
    "every line but the first one and the empty ones gets the indentation, whatever the number of lines"
    t, ind = I.lines('text'), whitespace(I, 'indent')
    o = I.call(domm().add_indent, t, ind)
    I.check('no_exception', not o.raised)
    I.check_lines('lines', o.value, I.nlines(t), lambda i: I.ite(I.or_(I.eq(i, 0), I.eq(I.line(t, i), '')), I.line(t, i), ind + I.line(t, i)))

@contract('C05', 'dom.del_indent')
def del_indent(I):
    "every line loses the indentation if it starts with it; nothing else changes"
    t, ind = I.lines('text'), whitespace(I, 'indent')
    o = I.call(domm().del_indent, t, ind)
    I.check('no_exception', not o.raised)
    I.check_lines('lines', o.value, I.nlines(t), lambda i: I.drop_prefix(I.line(t, i), ind))

# ------------------------------------------------------------------------------------------------------------ indentation state

@contract('C05', 'State.indent', 'State.dedent', 'NODES.indent.translate', 'NODES.dedent.translate', 'NODES.indent.render', 'NODES.dedent.render')
def indentation_state(I):
    "INDENT appends its character, DEDENT removes the last one, which must be the same; nothing is output"
    N = nodes()
    ind = I.str('indentation')
    state = I.new(State(), indentation=ind)
    c = I.choice('char', ['s', 't'])
    ch = {'s': ' ', 't': '\t'}[c]
    mode = I.choice('mode', ['translate', 'render'])
    if I.fork('indent'):
        o = I.call(I.getattr(I.new(getattr(N, 'xindent_' + c)), mode), state)
        I.check('no_exception', not o.raised)
        I.check('appended', I.same(I.getattr(state, 'indentation'), ind + ch))
    else:
        x = I.str('x')
        I.assume(I.eq(ind, x + I.choice('last', [' ', '\t', '\n', 'x'])))
        o = I.call(I.getattr(I.new(getattr(N, 'xdedent_' + c)), mode), state)
        if o.raised: I.check('only_if_the_last_one_differs', I.not_(I.eq(ind, x + ch))); return
        I.check('same_character', I.eq(ind, x + ch))
        I.check('removed', I.same(I.getattr(state, 'indentation'), x))
    if mode == 'render': I.check('no_text', I.same(o.value, ''))
    else: I.check('no_output', o.value is None)

# ------------------------------------------------------------------------------------------------------------ DOM layout

def layout_nodes(I, name, n):
    def mk(i):
        def set_indent(ind): I.event(name + '_indent', i, ind)
        def set_outline(outline=True): I.event(name + '_outline', i, outline)
        def relative_indent(ind): I.event(name + '_relative', i, ind)
        return I.elem(name, i, bare(I, D().Node, margin=I.f(name + '_margin', 'bool', i), set_indent=I.stub(set_indent), set_outline=I.stub(set_outline), relative_indent=I.stub(relative_indent)))
    return I.seq(name, mk, n)

@contract('C05', 'DOM.set_indent', 'DOM.set_outline')
def dom_layout(I):
    n = I.int('n', lo=0)
    d = I.new(D(), nodes=layout_nodes(I, 'x', n))
    if I.fork('indent'):
        ind = I.choice('ind', [None, '', 'str'])
        if ind == 'str': ind = I.str('indentation')
        tr = I.rec('tr', 'val', I.nil, lambda k, t: I.push(t, I.ev('x_indent', k, ind)))
        o = I.call(I.getattr(d, 'set_indent'), ind)
        I.check('every_node_once', (not o.raised) and I.same(I.trace(), tr(n)))
    else:
        outline = I.fork('outline')
        margins = I.rec('margins', 'bool', True, lambda k, g: I.and_(g, I.f('x_margin', 'bool', k)))
        o = I.call(I.getattr(d, 'set_outline'), outline) if I.fork('given') else I.call(I.getattr(d, 'set_outline'))
        m = I.nevents()
        I.check('no_exception', not o.raised)
        I.check('at_most_one', I.or_(I.eq(m, 0), I.eq(m, 1)))
        if I.truth(I.eq(m, 0)): I.check('only_margins', margins(n))

@contract('C05', 'DOM.set_outline', bounded=True)
def dom_outline(I):
    "up to 4 nodes: exactly the first one that is not a margin is marked"
    n = I.choice('n', [0, 1, 2, 3, 4])
    xs = layout_nodes(I, 'x', n)
    d = I.new(D(), nodes=I.list([I.item(xs, i) for i in range(n)]))
    outline = I.fork('outline')
    I.run(I.getattr(d, 'set_outline'), outline)
    for i in range(n):
        if not I.truth(I.f('x_margin', 'bool', i)):
            I.check('first_block', I.same(I.trace(), I.push(I.nil, I.ev('x_outline', i, outline)))); return
    I.check('nothing', I.same(I.trace(), I.nil))

@contract('C05', 'DOM.Node.set_indent', 'DOM.Node.relative_indent', 'DOM.Text.set_indent', 'DOM.Node.set_outline')
def node_layout(I):
    "absolute indentations (starting with a newline) become relative to the parent, through inline nodes; relative ones are kept"
    n = I.int('n', lo=0)
    body = I.new(D(), nodes=layout_nodes(I, 'x', n))
    old = I.choice('old', ['none', 'absolute', 'relative'])
    parent, rest = I.str('parent'), I.str('rest')
    cls = I.choice('cls', ['Node', 'Text', 'Root'])
    mode = I.choice('mode', ['set', 'relative', 'outline'])
    cur = None if old == 'none' else (parent + rest if old == 'absolute' else rest)
    if old == 'absolute': I.assume(I.startswith(parent, '\n'))
    if old == 'relative': I.assume(I.not_(I.startswith(rest, '\n')))
    node = I.new(getattr(D(), cls), body=body, indent=cur)
    rel = lambda p: I.rec('tr', 'val', I.nil, lambda k, t: I.push(t, I.ev('x_relative', k, p)))
    if mode == 'outline':
        v = I.fork('v')
        I.run(I.getattr(node, 'set_outline'), v)
        I.check('outline', I.getattr(node, 'outline') is v and I.same(I.getattr(node, 'indent'), cur))
        I.run(I.getattr(node, 'set_outline'))
        I.check('outline_default', I.getattr(node, 'outline') is True)
    elif mode == 'set':
        new = I.choice('new', [None, 'str'])
        if new: new = I.str('indentation')
        tr = rel(new)
        o = I.call(I.getattr(node, 'set_indent'), new)
        I.check('no_exception', not o.raised)
        I.check('indentation', I.same(I.getattr(node, 'indent'), new))
        if new is None or cls == 'Text': I.check('children_kept', I.same(I.trace(), I.nil))
        else: I.check('children_made_relative', I.same(I.trace(), tr(n)))
    else:
        tr = rel(parent)
        o = I.call(I.getattr(node, 'relative_indent'), parent)
        I.check('no_exception', not o.raised)
        if old == 'none': I.check('inline_node_passes_it_on', I.same(I.trace(), tr(n)))
        else:
            I.check('children_kept', I.same(I.trace(), I.nil))
            I.check('relative_to_the_parent', I.same(I.getattr(node, 'indent'), rest))

@contract('C05', 'DOM.Node.render', 'DOM.Text._render_body', 'DOM.Node._render_body')
def node_render(I):
    "a node renders as its content (of its tag, its children or its text), after a newline if it is an outline block, indented by its own indentation"
    m = domm()
    kind = I.choice('kind', ['text', 'tag', 'plain'])
    outline = I.fork('outline')
    text = I.lines('text')
    n = I.int('n', lo=0)
    indented = I.fork('indented')
    ind = whitespace(I, 'indent') if indented else None
    from hypertag.core.tag import Tag
    if kind == 'text': node = I.new(D().Text, text=text)
    else:
        body = I.new(D(), 'body', nodes=I.list([]), render=I.fn('render', ret=lambda: text, raises=False))
        attrs, kw = I.vals('attrs', n), I.dict({'k': I.val('k')})
        got = []
        def expand(b, a, k):
            got.append((b, a, k)); I.event('expand')
            if I.f('expand_raises', 'bool'): I.raise_('expand')
            return text
        tag = I.new(Tag, expand=I.stub(expand), name='t') if kind == 'tag' else None
        node = I.new(D().Node, body=body, tag=tag, attrs=attrs, kwattrs=kw)
    I.setattr(node, 'outline', outline); I.setattr(node, 'indent', ind)
    o = I.call(I.getattr(node, 'render'))
    if kind == 'tag' and I.f('expand_raises', 'bool'): I.check('tag_error_propagates', is_stub_error(I, o.exc, 'expand')); return
    I.check('no_exception', not o.raised)
    if kind == 'tag':
        I.check('expanded_once', len(got) == 1 and I.same(I.trace(), I.push(I.nil, I.ev('expand'))))
        b, a, k = got[0]
        I.check('with_its_body_and_attributes', b is body and I.items_eq(a, attrs) and I.same(k, kw))
    elif kind == 'plain': I.check('body_rendered_once', I.same(I.trace(), I.push(I.nil, I.ev('render'))))
    shift = 1 if outline else 0
    def line(i):
        j = i - shift
        if outline and I.truth(I.eq(i, 0)): return ''
        l = I.line(text, j)
        return l if ind is None or I.truth(I.or_(I.eq(i, 0), I.eq(l, ''))) else ind + l
    I.check_lines('lines', o.value, I.nlines(text) + shift, line)

@contract('C05', 'DOM.render')
def dom_render(I):
    "a DOM renders as the concatenation of its nodes, each rendered once, in order"
    n = I.int('n', lo=0)
    def mk(i):
        def render():
            I.event('x', i)
            if I.f('x_raises', 'bool', i): I.raise_('x', i)
            return I.f('x_str', 'str', i)
        return I.elem('x', i, bare(I, D().Node, render=I.stub(render)))
    d = I.new(D(), nodes=I.seq('x', mk, n))
    cat = I.rec('cat', 'str', '', lambda k, s: s + I.f('x_str', 'str', k))
    tr = I.rec('tr', 'val', I.nil, lambda k, t: I.push(t, I.ev('x', k)))
    o = I.call(I.getattr(d, 'render'))
    if o.raised: I.check('only_errors_of_nodes', is_stub_error(I, o.exc, 'x')); return
    I.check('concatenation', I.same(o.value, cat(n)))
    I.check('each_once_in_order', I.same(I.trace(), tr(n)))

@contract('C05', 'DOM.Root.render')
def root_render(I):
    "the newline of the first block is dropped, once"
    text = I.str('text')
    body = I.new(D(), 'body', nodes=I.list([]), render=I.fn('render', ret=lambda: text, raises=False))
    node = I.new(D().Root, body=body, indent=None, outline=False)
    drop = I.choice('drop', ['default', True, False])
    o = I.call(I.getattr(node, 'render')) if drop == 'default' else I.call(I.getattr(node, 'render'), drop)
    I.check('no_exception', not o.raised)
    if drop is False: I.check('kept', I.same(o.value, text))
    else: I.check('dropped', I.same(o.value, I.ite(I.startswith(text, '\n'), text[1:], text)))

# ------------------------------------------------------------------------------------------------------------ blocks

@contract('C05', 'NODES.xblock.setup', 'NODES.xblock.translate')
def block(I):
    "margin, then the block; its first line starts a new one unless marked ...; < sets its indentation to that of its parent"
    N = nodes()
    state = I.new(State())
    mod = I.choice('modifier', [None, '<', '...'])
    kind = I.choice('block', ['none', 'empty', 'nodes'])
    hasmargin = I.fork('margin')
    n = I.int('n', lo=1)
    xs = layout_nodes(I, 'x', n)
    mnode = I.new(D().Text, text='\n', margin=True)
    margin = I.new(D(), nodes=I.list([mnode] if hasmargin else []))
    blk = None
    if kind != 'none':
        blk = I.new(D(), nodes=xs if kind == 'nodes' else I.list([]), set_indent=I.fn('set_indent', ret=None, raises=False), set_outline=I.fn('set_outline', ret=None, raises=False))
    c0 = I.new(N.xmargin_out, 'm', type='margin_out', translate=I.fn('margin', ret=lambda st: margin, raises=False))
    c1 = I.new(N.static, 'mod', type='modifier', value=mod)
    c2 = I.new(N.block_text, 'b', type='block_normal', translate=I.fn('block', ret=lambda st: blk))
    node = I.new(N.xblock, children=I.list([c0, c1, c2] if mod else [c0, c2]))
    I.run(I.getattr(node, 'setup'))
    I.list_hint('x', lambda i: I.elem('x', i, bare(I, D().Node)))
    o = I.call(I.getattr(node, 'translate'), state)
    t = I.push(I.nil, I.ev('margin', state), I.ev('block', state))
    if I.f('block_raises', 'bool'): I.check('error_propagates', is_stub_error(I, o.exc, 'block')); return
    I.check('no_exception', not o.raised)
    out = I.getattr(o.value, 'nodes')
    k = 1 if hasmargin else 0
    if kind != 'nodes':
        I.check('no_block', I.same(I.length(out), k) and I.same(I.trace(), t))
        return
    if mod != '...': t = I.push(t, I.ev('set_outline'))
    if mod == '<': t = I.push(t, I.ev('set_indent', ''))
    I.check('placement', I.same(I.trace(), t))
    I.check('margin_and_block', I.eq(I.length(out), n + k))
    if hasmargin: I.check('margin_first', I.item(out, 0) is mnode)

@contract('C05', 'NODES.xmargin_out.setup', 'NODES.xmargin_out.translate')
def margin(I):
    "blank lines before a block are kept one for one; the last newline belongs to the block"
    N = nodes()
    m = I.str('newlines', alphabet='\n')
    I.assume(I.not_(I.eq(m, '')))
    node = I.new(N.xmargin_out, text=I.stub(lambda: m + '\n'))
    I.run(I.getattr(node, 'setup'))
    o = I.call(I.getattr(node, 'translate'), I.new(State()))
    I.check('no_exception', not o.raised)
    ns = I.getattr(o.value, 'nodes')
    I.check('one_node', I.same(I.length(ns), 1))
    I.check('all_newlines', I.same(I.getattr(I.item(ns, 0), 'text'), m) and I.getattr(I.item(ns, 0), 'margin') is True and I.is_none(I.getattr(I.item(ns, 0), 'indent')))

@contract('C05', 'NODES.block_text.translate')
def text_block_node(I):
    "a text block becomes one text node with its rendered text and the current indentation"
    N = nodes()
    ind, text = I.str('indentation'), I.str('text')
    state = I.new(State(), indentation=ind)
    node = I.new(getattr(N, I.choice('cls', ['xblock_markup', 'xblock_normal', 'xblock_verbat'])), render=I.fn('render', ret=lambda st: text))
    o = I.call(I.getattr(node, 'translate'), state)
    I.check('rendered_once', I.same(I.trace(), I.push(I.nil, I.ev('render', state))))
    if I.f('render_raises', 'bool'): I.check('error_propagates', is_stub_error(I, o.exc, 'render')); return
    I.check('no_exception', not o.raised)
    ns = I.getattr(o.value, 'nodes')
    I.check('one_node', I.same(I.length(ns), 1))
    I.check('text_and_indentation', I.same(I.getattr(I.item(ns, 0), 'text'), text) and I.same(I.getattr(I.item(ns, 0), 'indent'), ind) and I.getattr(I.item(ns, 0), 'margin') is False and I.getattr(I.item(ns, 0), 'outline') is False)
