"C01: text is inserted and escaped exactly once."
from vc.contract import contract
from contracts.lib import *

ESC = {'&': '&amp;', '<': '&lt;', '>': '&gt;'}

@contract('C01', 'html_escape', 'HyperHTML.escape')
def html_escape(I):
    "every & < > is replaced by its entity, in one pass; all other characters are unchanged"
    from hypertag import HyperHTML
    s = I.str('s')
    o = I.call(I.getattr(bare(I, HyperHTML), 'escape'), s)
    I.check('escaped', (not o.raised) and I.same(o.value, I.replace(s, ESC)))

def renders(I, name, n=None, type='x'):
    N = nodes()
    def mk(i):
        def render(state):
            I.event(name, i, state)
            if I.f(name + '_raises', 'bool', i): I.raise_(name, i)
            return I.f(name + '_str', 'str', i)
        return I.elem(name, i, bare(I, N.node, type=type, render=I.stub(render)))
    return I.seq(name, mk, n)


def cat_of(I, name): return I.rec('cat_' + name, 'str', '', lambda k, s: s + I.f(name + '_str', 'str', k))
def tr_of(I, name, state, init=None): return I.rec('tr_' + name, 'val', I.nil if init is None else init, lambda k, t: I.push(t, I.ev(name, k, state)))

def check_joined(I, o, name, state, n, cat, tr):
    if not o.raised:
        I.check('concatenation_in_order', I.same(o.value, cat(n)))
        I.check('each_rendered_once_in_order', I.same(I.trace(), tr(n)))
    else:
        I.check('only_errors_of_pieces', is_stub_error(I, o.exc, name))
        I.check('stops_at_the_failure', I.same(I.trace(), tr(I.nevents())))
        I.check('is_the_failed_piece', I.f(name + '_raises', 'bool', I.nevents() - 1))

@contract('C01', 'NODES.node._render_all')
def render_all(I):
    N = nodes()
    state = I.new(State())
    n = I.int('n', lo=0)
    ps = renders(I, 'p', n)
    cat, tr = cat_of(I, 'p'), tr_of(I, 'p', state)
    o = I.call(N.node._render_all, ps, state)
    check_joined(I, o, 'p', state, n, cat, tr)

@contract('C01', 'NODES.xline_markup.render_inline')
def line_markup(I):
    "a line of markup is the concatenation of its pieces, unescaped"
    N = nodes()
    state = I.new(State())
    n = I.int('n', lo=0)
    cat, tr = cat_of(I, 'p'), tr_of(I, 'p', state)
    node = I.new(N.xline_markup, children=renders(I, 'p', n))
    o = I.call(I.getattr(node, 'render_inline'), state)
    check_joined(I, o, 'p', state, n, cat, tr)

def escaping_tree(I, escape):
    return I.new(ast().HypertagAST, runtime=bare(I, object_like(), escape=escape))
class Empty: pass
def object_like(): return Empty

@contract('C01', 'NODES.xline_normal.render_inline')
def line_normal(I):
    "a line of normal text is the rendered line escaped exactly once, by the function of the runtime; without one it is left as it is"
    N = nodes()
    state = I.new(State())
    has = I.fork('has_escape')
    escape = I.fn('escape', ret='str', index=0) if has else None
    child = I.new(N.line, 'child', type='line_markup', render_inline=I.fn('inner', ret='str'))
    node = I.new(N.xline_normal, children=I.list([child]), tree=escaping_tree(I, escape))
    o = I.call(I.getattr(node, 'render_inline'), state)
    text = I.f('inner_ret', 'str')
    if I.f('inner_raises', 'bool'):
        I.check('error_propagates', o.raised and is_stub_error(I, o.exc, 'inner'))
        return
    t = I.push(I.nil, I.ev('inner', state))
    if not has:
        I.check('unescaped', (not o.raised) and I.same(o.value, text) and I.same(I.trace(), t))
        return
    I.check('escaped_once', I.same(I.trace(), I.push(t, I.ev('escape', 0, text))))
    if I.f('escape_raises', 'bool', 0): I.check('error_propagates', o.raised and is_stub_error(I, o.exc, 'escape'))
    else: I.check('escaped_text', (not o.raised) and I.same(o.value, I.f('escape_ret', 'str', 0)))

@contract('C01', 'NODES.xline_verbat.render_inline')
def line_verbat(I):
    "verbatim text is rendered as it stands in the script"
    N = nodes()
    s = I.str('s')
    node = I.new(N.xline_verbat, text=I.stub(lambda: s))
    o = I.call(I.getattr(node, 'render_inline'), I.new(State()))
    I.check('as_is', (not o.raised) and I.same(o.value, s))

def text_node(I, dom):
    "the only node of a DOM, or None"
    nodes_ = I.getattr(dom, 'nodes')
    n = I.length(nodes_)
    return nodes_[0] if isinstance(n, int) and n == 1 else None

@contract('C01', 'NODES.static.setup', 'NODES.static.render', 'NODES.static.translate', 'DOM.text', 'DOM.Text.__init__')
def static_text(I):
    "static text: rendered unchanged; translated to a text node with exactly this text, or to nothing if there is none"
    N = nodes()
    state = I.new(State())
    s = I.str('s')
    cls = I.choice('cls', ['static', 'xmargin'])
    node = I.new(getattr(N, cls), text=I.stub(lambda: s))
    I.run(getattr(N, cls).setup, node)
    o = I.call(I.getattr(node, 'render'), state)
    I.check('rendered_unchanged', (not o.raised) and I.same(o.value, s))
    o = I.call(I.getattr(node, 'translate'), state)
    I.check('no_exception', not o.raised)
    if I.truth(s):
        x = text_node(I, o.value)
        I.check('one_text_node', x is not None)
        if x is not None:
            I.check('text_of_the_node', I.same(I.getattr(x, 'text'), s))
            r = I.call(I.getattr(o.value, 'render'))
            I.check('node_renders_the_text', (not r.raised) and I.same(r.value, s))
    else: I.check('empty', text_node(I, o.value) is None and I.same(I.length(I.getattr(o.value, 'nodes')), 0))

@contract('C01', 'NODES.xescape.setup', 'NODES.static.render')
def escape_char(I):
    "a doubled character stands for one"
    N = nodes()
    c = I.str('c')
    I.assume(I.eq(I.length(c), 1))
    node = I.new(N.xescape, text=I.stub(lambda: c + c))
    I.run(N.xescape.setup, node)
    o = I.call(I.getattr(node, 'render'), I.new(State()))
    I.check('single', (not o.raised) and I.same(o.value, c))

@contract(['C01', 'C17'], 'NODES.expression_root.render', 'STR')
def expression_text(I):
    "an embedded expression renders as str(value), without escaping; None is an error"
    N = nodes()
    state = I.new(State())
    cls = I.choice('cls', ['xexpr', 'xexpr_var', 'xexpr_factor'])
    node = I.new(getattr(N, cls), evaluate=I.fn('value', ret='val'))
    o = I.call(I.getattr(node, 'render'), state)
    v = I.f('value_ret', 'val')
    I.check('evaluated_once', I.same(I.trace(), I.push(I.nil, I.ev('value', state))))
    if I.f('value_raises', 'bool'): I.check('error_propagates', is_stub_error(I, o.exc, 'value'))
    elif I.is_none(v): I.check('none_is_an_error', o.is_exc(Exception)); located(I, o, node)
    else:
        w = I.outcome(lambda: I.strof(v))
        if w.raised: I.check('str_fails', o.raised)
        else: I.check('string_form', (not o.raised) and I.same(o.value, w.value))

@contract('C01', 'NODES.line.translate', 'NODES.line.render')
def line_translate(I):
    "a line becomes one text node of exactly the rendered text; inside a text block it is preceded by the current indentation"
    N = nodes()
    ind = I.str('indentation')
    state = I.new(State(), indentation=ind)
    cls = I.choice('cls', ['xline_normal', 'xline_markup', 'xline_verbat'])
    node = I.new(getattr(N, cls), render_inline=I.fn('inner', ret='str'))
    text = I.f('inner_ret', 'str')
    if I.fork('translate'):
        o = I.call(I.getattr(node, 'translate'), state)
        if I.f('inner_raises', 'bool'): I.check('error_propagates', is_stub_error(I, o.exc, 'inner')); return
        I.check('no_exception', not o.raised)
        x = text_node(I, o.value)
        I.check('one_text_node', x is not None)
        if x is not None:
            I.check('text_of_the_node', I.same(I.getattr(x, 'text'), text))
            I.check('inline', I.is_none(I.getattr(x, 'indent')))
    else:
        o = I.call(I.getattr(node, 'render'), state)
        if I.f('inner_raises', 'bool'): I.check('error_propagates', is_stub_error(I, o.exc, 'inner')); return
        I.check('indentation_and_text', (not o.raised) and I.same(o.value, ind + text))
    I.check('rendered_once', I.same(I.trace(), I.push(I.nil, I.ev('inner', state))))

@contract('C01', 'NODES.xblock_comment.translate', 'NODES.xblock_comment.render')
def comments(I):
    N = nodes()
    node = I.new(N.xblock_comment, children=renders(I, 'p', I.int('n', lo=0)))
    state = I.new(State())
    o = I.call(I.getattr(node, 'translate'), state)
    I.check('no_output', (not o.raised) and I.same(I.length(I.getattr(o.value, 'nodes')), 0))
    I.check('nothing_evaluated', I.same(I.trace(), I.nil))
