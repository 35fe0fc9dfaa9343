"C02: elements and attributes."
from vc.contract import contract
from contracts.lib import *

ENC = [{'&': '&amp;', '<': '&lt;', '>': '&gt;', '\n': '&#10;', '\r': '&#13;', '\t': '&#9;'}, {'&': '&amp;', '<': '&lt;', '>': '&gt;', '\r': '&#13;'},
       {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;', "'": '&#x27;', '\r': '&#13;'}, {'&': '&amp;', '\r': '&#13;'}]

def reads_back(I, out, name, s):
    "out is an attribute `name` that an HTML parser reads back as exactly s: the value encoded by entities, in quotes it does not contain"
    for tab in ENC:
        t = I.replace(s, tab)
        dq = I.same(out, name + '="' + I.replace(t, {'"': '&quot;'}) + '"')
        dq1 = I.and_(I.not_(I.contains(t, '"')), I.same(out, name + '="' + t + '"'))
        sq = I.and_(I.not_(I.contains(t, "'")), I.same(out, name + "='" + t + "'"))
        yield I.or_(dq, dq1, sq)

def body_stub(I, ok=True):
    "the body of a tag: its rendered text is arbitrary"
    return I.new(domm().DOM, 'body', nodes=I.list([]), render=I.fn('body', ret='str', raises=not ok))

def value_of(I, kind, name):
    if kind == 'true': return True
    if kind == 'false': return False
    return I.str(name) if kind == 'str' else I.val(name)

@contract('C02', 'Markup._render_attr', 'Markup._expand', 'Markup.expand', name='attribute')
def attribute(I):
    "one attribute of arbitrary value: True is a bare name, False nothing, anything else is quoted and escaped"
    import hypertag.core.tag as m
    kind = I.choice('kind', ['true', 'false', 'str', 'val'])
    v = value_of(I, kind, 'v')
    if kind == 'val': I.assume(I.not_(I.or_(I.same(v, True), I.same(v, False))))
    tag = I.new(m.Markup, name='p', void=True, mode='HTML')
    body = I.new(domm().DOM, 'body', nodes=I.list([]), render=I.stub(lambda: ''))
    o = I.call(I.getattr(tag, 'expand'), body, (), I.dict({'title': v}))
    if kind == 'true': I.check('bare_name', (not o.raised) and I.same(o.value, '<p title />')); return
    if kind == 'false': I.check('omitted', (not o.raised) and I.same(o.value, '<p />')); return
    s = I.outcome(lambda: I.strof(v))
    if s.raised: I.check('str_fails', o.raised); return
    I.check('no_exception', not o.raised)
    s = s.value
    checks = []
    for tab in ENC:
        t = I.replace(s, tab)
        pre = '<p title='
        dq = I.same(o.value, pre + '"' + I.replace(t, {'"': '&quot;'}) + '" />')
        dq1 = I.and_(I.not_(I.contains(t, '"')), I.same(o.value, pre + '"' + t + '" />'))
        sq = I.and_(I.not_(I.contains(t, "'")), I.same(o.value, pre + "'" + t + "' />"))
        checks += [dq, dq1, sq]
    I.check('reads_back', I.or_(*checks))

@contract('C02', 'Markup._expand', 'Markup.expand')
def element(I):
    "an element: opening tag, body, closing tag; void elements are self-closing and take no body; positional attributes are refused"
    import hypertag.core.tag as m
    name = I.str('name')
    void = I.fork('void')
    text = I.str('text')
    npos = I.int('npos', lo=0)
    pos = I.vals('pos', npos)
    tag = I.new(m.Markup, name=name, void=void, mode='HTML')
    body = I.new(domm().DOM, 'body', nodes=I.list([]), render=I.stub(lambda: text))
    o = I.call(I.getattr(tag, 'expand'), body, pos, I.dict({}))
    if I.truth(npos > 0): I.check('positional_attributes_refused', o.is_exc(TypeError)); return
    if void:
        if I.truth(text): I.check('void_with_body_refused', o.raised); return
        I.check('self_closing', (not o.raised) and I.same(o.value, '<' + name + ' />'))
        return
    I.check('no_exception', not o.raised)
    nl = I.ite(I.eq(text[:1], '\n'), '\n', '')
    I.check('element', I.same(o.value, '<' + name + '>' + text + nl + '</' + name + '>'))

@contract('C02', 'Markup._expand', bounded=True)
def attribute_list(I):
    "up to 3 attributes: in the order given, separated by single spaces, False ones dropped"
    import hypertag.core.tag as m
    n = I.choice('n', [0, 1, 2, 3])
    d, exp = I.dict({}), 'p'
    for i in range(n):
        kind = I.choice('kind%d' % i, ['true', 'false', 'str'])
        key = 'k%d' % i
        if kind == 'str':
            v = I.str('v%d' % i)
            for c in '&<>"\'\n\r\t': I.assume(I.not_(I.contains(v, c)))       # quoting: contract `attribute`
            exp = exp + ' ' + key + '="' + v + '"'
        else:
            v = kind == 'true'
            if v: exp = exp + ' ' + key
        d[key] = v
    tag = I.new(m.Markup, name='p', void=False, mode='HTML')
    body = I.new(domm().DOM, 'body', nodes=I.list([]), render=I.stub(lambda: 'x'))
    o = I.call(I.getattr(tag, 'expand'), body, (), d)
    I.check('attributes', (not o.raised) and I.same(o.value, '<' + exp + '>x</p>'))

@contract(['C02', 'C16'], 'Null.expand', 'HyperHTML comment', 'TagFunction.expand', 'Tag.__call__')
def special_tags(I):
    import hypertag.core.tag as m
    text = I.str('text')
    which = I.choice('which', ['null', 'function', 'dom_function', 'call', 'call_empty'])
    body = I.new(domm().DOM, 'body', nodes=I.list([]), render=I.fn('render', ret=lambda: text, raises=False))
    if which == 'null':
        o = I.call(I.getattr(m.null, 'expand'), body, (), I.dict({}))
        I.check('body_unchanged', (not o.raised) and I.same(o.value, text))
    elif which in ('function', 'dom_function'):
        a, b, k = I.val('a'), I.val('b'), I.val('k')
        def fun(*args, **kw):
            I.event('fun', *args); I.check('keywords', list(kw) == ['k'] and I.same(kw['k'], k))
            if I.f('fun_raises', 'bool'): I.raise_('fun')
            return I.f('fun_ret', 'val')
        tag = I.new(m.TagFunction, fun=I.stub(fun), dom=which == 'dom_function', name='t')
        o = I.call(I.getattr(tag, 'expand'), body, (a, b), I.dict({'k': k}))
        t = I.push(I.nil, I.ev('fun', body, a, b)) if which == 'dom_function' else I.push(I.nil, I.ev('render'), I.ev('fun', text, a, b))
        I.check('called_once_with_the_body_and_all_attributes', I.same(I.trace(), t))
        if I.f('fun_raises', 'bool'): I.check('error_propagates', is_stub_error(I, o.exc, 'fun'))
        else: I.check('result', (not o.raised) and I.same(o.value, I.f('fun_ret', 'val')))
    else:
        got = []
        def expand(b, attrs, kw): got.append((b, attrs, kw)); return I.f('ret', 'str')
        tag = I.new(m.Tag, expand=I.stub(expand))
        a, k = I.val('a'), I.val('k')
        other = I.choice('body', ['text', '', 0, False, None])       # any value but None makes a body: its string form
        if other != 'text': text = other
        o = I.call(m.Tag.__call__, tag, text, a, k=k) if which == 'call' else I.call(m.Tag.__call__, tag)
        I.check('result', (not o.raised) and len(got) == 1 and I.same(o.value, I.f('ret', 'str')))
        if len(got) == 1:
            b, attrs, kw = got[0]
            I.check('attributes', len(attrs) == (1 if which == 'call' else 0) and all(I.truth(I.same(x, a)) for x in attrs) and list(kw) == (['k'] if which == 'call' else []))
            r = I.call(I.getattr(b, 'render'))
            I.check('body', (not r.raised) and I.same(r.value, I.strof(text) if which == 'call' and text is not None else ''))

# ------------------------------------------------------------------------------------------------------------ tags in AST

@contract('C02', 'NODES.xtags_expand.apply_tags')
def tag_chain(I):
    "t1 : t2 : ... : tn expands tn first, each with the result of the next one as its body; the leftmost is the outermost"
    N = nodes()
    state = I.new(State())
    n = I.int('n', lo=0)
    body = I.val('body')
    def mk(i):
        def translate_tag(st, b):
            I.event('tag', i, st, b)
            if I.f('tag_raises', 'bool', i): I.raise_('tag', i)
            return I.f('tag_ret', 'val', i, b)
        return I.elem('tag', i, bare(I, N.xtag_expand, type='tag_expand', translate_tag=I.stub(translate_tag)))
    acc = I.rec('acc', 'val', body, lambda k, b: I.f('tag_ret', 'val', n - 1 - k, b))
    tr = I.rec('tr', 'val', I.nil, lambda k, t: I.push(t, I.ev('tag', n - 1 - k, state, acc(k))))
    node = I.new(N.xtags_expand, children=I.seq('tag', mk, n))
    o = I.call(I.getattr(node, 'apply_tags'), state, body)
    if not o.raised:
        I.check('nested', I.same(o.value, acc(n)))
        I.check('each_expanded_once', I.same(I.trace(), tr(n)))
    else: I.check('only_errors_of_tags', is_stub_error(I, o.exc, 'tag') and I.same(I.trace(), tr(I.nevents())))

def str_exprs(I, name, n):
    N = nodes()
    def mk(i):
        def evaluate(state):
            I.event(name, i, state)
            if I.f(name + '_raises', 'bool', i): I.raise_(name, i)
            return I.f(name + '_ret', 'str', i)
        return I.elem(name, i, bare(I, N.expression, type='expr', evaluate=I.stub(evaluate)))
    return I.seq(name, mk, n)

def tag_node(I, unnamed, named, slot):
    return I.new(nodes().xtag_expand, unnamed=unnamed, named=named, name='t', tag=slot, tree=None)

def slot_stub(I, value):
    from hypertag.core.structs import Slot
    return I.new(Slot, get=I.stub(lambda st: value))

@contract(['C02', 'C17'], 'NODES.xtag_expand.translate_tag')
def tag_occurrence(I):
    "an external tag becomes one DOM node with this tag, body and attributes; a hypertag is expanded once, with them; anything else is an error"
    N = nodes()
    import hypertag.core.tag as m
    state = I.new(State())
    kind = I.choice('kind', ['markup', 'function', 'hypertag', 'imported', 'value'])
    body = domm().DOM.__new__(domm().DOM); body.nodes = I.list([]); I.track(body)
    un, na, nb, vb = I.val('un'), I.val('na'), I.val('nb'), None
    exprs = [I.new(N.expression, 'e%d' % i, evaluate=I.fn('e', index=i, ret='val')) for i in range(4)]
    node_names = ['a', 'b-c', 'class']
    def expand(b, attrs, kw, st, caller):
        got.append((b, attrs, kw, st, caller)); return result
    got = []
    result = domm().DOM.__new__(domm().DOM); result.nodes = I.list([]); I.track(result)
    if kind == 'markup': tag = I.new(m.Markup, name='x')
    elif kind == 'function': tag = I.new(m.TagFunction, name='x', dom=False)
    elif kind == 'hypertag': tag = I.new(N.xblock_def, name='x', expand=I.stub(expand))
    elif kind == 'imported': tag = I.new(ast().ImportedHypertag, expand=I.stub(expand))
    else: tag = I.choice('notag', [3, 'p', None])
    node = tag_node(I, I.list(exprs[:1]), I.list([(nm, e) for nm, e in zip(node_names, exprs[1:])]), slot_stub(I, tag))
    o = I.call(I.getattr(node, 'translate_tag'), state, body)
    bad = [I.truth(I.f('e_raises', 'bool', i)) for i in range(4)]
    k = bad.index(True) if True in [bool(b) for b in bad] else None
    if k is not None:
        I.check('attribute_error_propagates', is_stub_error(I, o.exc, 'e') and not got)
        return
    t = I.nil
    for i in range(4): t = I.push(t, I.ev('e', i, state))
    I.check('attributes_evaluated_once_in_order', I.same(I.trace(), t))
    if kind == 'value': I.check('not_a_tag', o.is_exc(Exception) and not got); located(I, o, node); return
    I.check('no_exception', not o.raised)
    v = [I.f('e_ret', 'val', i) for i in range(4)]
    if kind in ('hypertag', 'imported'):
        I.check('expanded_once', len(got) == 1 and o.value is result)
        if len(got) != 1: return
        b, attrs, kw, st, caller = got[0]
        I.check('arguments', b is body and st is state and caller is node)
    else:
        I.check('not_expanded_yet', not got)
        ns = I.getattr(o.value, 'nodes')
        I.check('one_node', I.same(I.length(ns), 1))
        x = ns[0]
        I.check('tag', I.getattr(x, 'tag') is tag)
        b, attrs, kw = I.getattr(x, 'body'), I.getattr(x, 'attrs'), I.getattr(x, 'kwattrs')
        I.check('body', I.same(I.length(I.getattr(b, 'nodes')), 0))
    I.check('positional', I.items_eq(attrs, [v[0]]))
    exp = I.dict({})
    for nm, x in zip(node_names, v[1:]): exp = I.dict_set(exp, nm, x)
    I.check('keyword', I.same(kw, exp))

@contract('C02', 'NODES.xtag_expand._eval_attrs')
def attribute_values(I):
    "positional values in order; named values by name in the order of first occurrence, repeated ones joined by single spaces"
    N = nodes()
    import hypertag.core.tag as m
    state = I.new(State())
    n, k = I.int('n', lo=0), I.int('k', lo=0)
    us, xs = str_exprs(I, 'u', n), str_exprs(I, 'x', k)
    names = lambda i: I.f('name', 'str', i)
    if I.concrete: named = [(names(i), xs[i]) for i in range(k)]
    else:
        from vc.core import SSeq
        named = I.e.symlist(SSeq(k.t, lambda i: (names(I_int(i)), xs.sym.at(i))))
    def step(i, d):
        v = I.f('x_ret', 'str', i)
        old = I.contains(d, names(i))
        return I.dict_set(d, names(i), I.ite(old, I.dget_str(d, names(i)) + ' ' + v, v))
    I.str_dicts()
    rec = I.rec('named', 'dict', I.dict({}), step)
    tru = I.rec('tru', 'val', I.nil, lambda i, t: I.push(t, I.ev('u', i, state)))
    trx = I.rec('trx', 'val', tru(n), lambda i, t: I.push(t, I.ev('x', i, state)))
    node = tag_node(I, us, named, None)
    o = I.call(I.getattr(node, '_eval_attrs'), state)
    if o.raised: I.check('only_errors_of_expressions', is_stub_error(I, o.exc, 'u') or is_stub_error(I, o.exc, 'x')); return
    I.check('evaluated_once_in_order', I.same(I.trace(), trx(k)))
    un, nm = o.value
    I.check_seq('positional', un, n, lambda i: I.f('u_ret', 'str', i))
    I.check('named', I.same(nm, rec(k)))

def I_int(i):
    from vc.core import SInt
    import z3
    return i.as_long() if z3.is_int_value(i) else SInt(i)

@contract('C02', 'NODES.xnull.translate_tag', 'NODES.xpass.translate')
def null_tag(I):
    N = nodes()
    import hypertag.core.tag as m
    state = I.new(State())
    text = I.str('text')
    D = domm().DOM
    inner = I.run(D.text, text)
    o = I.call(I.getattr(I.new(N.xnull), 'translate_tag'), state, inner)
    I.check('no_exception', not o.raised)
    r = I.call(I.getattr(o.value, 'render'))
    I.check('renders_its_body', (not r.raised) and I.same(r.value, text))
    o = I.call(I.getattr(I.new(N.xpass), 'translate'), state)
    I.check('pass_is_empty', (not o.raised) and I.same(I.length(I.getattr(o.value, 'nodes')), 0))

@contract('C02', 'NODES.xblock_struct.translate')
def tagged_block(I):
    "the body is translated first, then passed through the tags once, and the result gets the indentation of this place"
    N = nodes()
    ind = I.str('indentation')
    state = I.new(State(), indentation=ind)
    result = I.new(domm().DOM, 'result', set_indent=I.fn('set_indent', ret=None, raises=False))
    b = I.val('translated')
    body = I.new(N.body, 'body', translate=I.fn('body', ret=lambda st: b))
    tags = I.new(N.xtags_expand, 'tags', type='tags_expand', apply_tags=I.fn('tags', ret=lambda st, x: result))
    node = I.new(N.xblock_struct, tags=tags, body=body, children=I.list([tags, body]))
    o = I.call(I.getattr(node, 'translate'), state)
    t = I.push(I.nil, I.ev('body', state))
    if I.f('body_raises', 'bool'): I.check('body_error', is_stub_error(I, o.exc, 'body') and I.same(I.trace(), t)); return
    t = I.push(t, I.ev('tags', state, b))
    if I.f('tags_raises', 'bool'): I.check('tag_error', is_stub_error(I, o.exc, 'tags') and I.same(I.trace(), t)); return
    I.check('result', (not o.raised) and o.value is result)
    I.check('steps', I.same(I.trace(), I.push(t, I.ev('set_indent', ind))))

@contract('C02', 'NODES.xtag_expand.setup')
def attribute_positions(I):
    "positional attributes in order, then keyword attributes with their names in order; a positional one after a keyword one is an error there"
    N = nodes()
    m, n = I.int('positional', lo=0), I.int('all', lo=0)
    I.assume(m <= n)
    bad = I.fork('bad')
    extra = I.int('extra', lo=0) if bad else 0
    if bad: I.assume(m < n); I.count_hint(n)
    total = n + 1 + extra if bad else n
    def expr(i): return I.elem('expr', i, bare(I, N.expression_root, type='expr'))
    def mk(i):
        named = I.truth(I.and_(m <= i, i < n))
        if named: return I.elem('named', i, place(I, N.xattr_named, type='attr_named', name=I.f('name', 'str', i), expr=expr(i)))
        return I.elem('plain', i, place(I, N.xattr_unnamed, type='attr_unnamed', name=None, expr=expr(i)))
    attrs = I.seq('attr', mk, total)
    name = I.str('tag')
    head = I.new(N.node, type='name_id', value=name)
    I.list_hint('positional', expr, length=lambda k: I.ite(k <= m, k, m))
    I.list_hint('keyword', lambda i: (I.f('name', 'str', m + i), expr(m + i)), length=lambda k: I.ite(k <= m, 0, k - m))
    node = I.new(N.xtag_expand, children=I.seqcat(I.list([head]), attrs))
    o = I.call(I.getattr(node, 'setup'))
    if bad:
        I.check('positional_after_keyword_is_an_error', o.is_exc(SyntaxError))
        if I.concrete: blamed = getattr(o.exc, 'node', None)
        else: blamed = (tuple(getattr(o.exc, 'hargs', None) or ()) + (None, None))[1]
        I.check('reported_at_the_positional_one', blamed is not None and I.same(blamed, I.item(attrs, n)))
        return
    I.check('no_exception', not o.raised)
    I.check('tag_name', I.same(I.getattr(node, 'name'), name))
    I.check_seq('positional', I.getattr(node, 'unnamed'), m, expr)
    I.check_seq('keyword', I.getattr(node, 'named'), n - m, lambda i: (I.f('name', 'str', m + i), expr(m + i)))

@contract('C02', 'NODES.xattr_named.setup', 'NODES.xattr_unnamed.setup', 'NODES.xattr_short.setup', 'NODES.xattr_def.setup', 'NODES.xattr_body.setup', 'NODES.xkwarg.setup')
def attribute_names(I):
    "name=expr has that name and value, .x is the class, #x the id, an unnamed one has no name; declared attributes have the declared name and default"
    N = nodes()
    kind = I.choice('kind', ['xattr_named', 'xattr_unnamed', 'xattr_short', 'xattr_def', 'xattr_body', 'xkwarg'])
    expr = I.new(N.expression_root, type='expr')
    qualifier = I.new(N.xqualifier, type='qualifier', value='?')
    name = I.str('name')
    name_node = I.new(N.node, type='name_id', value=name)
    before, symbol, after = I.str('before'), I.choice('symbol', ['.', '#']), I.str('after')
    short = kind == 'xattr_short'
    has_expr = kind in ('xattr_named', 'xattr_unnamed', 'xattr_short', 'xkwarg') or (kind == 'xattr_def' and I.fork('default'))
    children = ([] if short or kind == 'xattr_unnamed' else [name_node]) + ([expr] if has_expr else [])
    if kind in ('xattr_named', 'xattr_short') and I.fork('qualified'): children.append(qualifier)
    node = I.new(getattr(N, kind), children=I.list(children), fulltext=before + symbol + after, pos=(I.length(before), I.length(before) + 1))
    o = I.call(I.getattr(node, 'setup'))
    I.check('no_exception', not o.raised)
    if o.raised: return
    want = None if kind == 'xattr_unnamed' else ({'.': 'class', '#': 'id'}[symbol] if short else name)
    I.check('name', I.same(I.getattr(node, 'name'), want))
    I.check('value', I.getattr(node, 'expr') is (expr if has_expr else None))
    if kind != 'xkwarg': I.check('only_the_body_attribute_takes_the_body', I.truth(I.getattr(node, 'body')) == (kind == 'xattr_body'))

VOID = 'area base br col embed hr img input link meta param source track wbr'.split()
NONVOID = '''a abbr acronym address applet article aside audio b basefont bdi bdo big blockquote body button canvas caption center cite code colgroup data datalist
dd del details dfn dialog dir div dl dt em fieldset figcaption figure font footer form frame frameset h1 h2 h3 h4 h5 h6 head header html i iframe ins kbd label legend
li main map mark meter nav noframes noscript object ol optgroup option output p picture pre progress q rp rt ruby s samp script section select small span strike strong
style sub summary sup svg table tbody td template textarea tfoot th thead time title tr tt u ul var video'''.split()

@contract('C02', 'std.html register.tags', 'Registry.tag', 'Markup.__init__')
def standard_tags(I):
    "every tag of HTML, in lower and upper case, renders as the element of its name; exactly the void elements of HTML are void"
    import hypertag.std.html as h
    tags = h.register.tags
    for name in VOID + NONVOID:
        for n in (name, name.upper()):
            tag = tags.get(n)
            if not (type(tag).__name__ == 'Markup' and tag.name == n and tag.void == (name in VOID) and tag.mode == 'HTML'): I.check('tag', False, note=n)
    I.check('all_tags', True)

@contract('C02', 'std.html.CustomTag.expand', 'std.html.comment.expand', 'Markup._expand')
def custom_and_comment(I):
    "custom 'NAME' renders the element NAME with its keyword attributes; comment renders the body between comment marks and takes no attributes"
    import hypertag.std.html as h
    which = I.choice('tag', ['custom', 'comment'])
    text, name, v = I.str('text', 'ab\n'), I.str('name'), I.str('value', 'ab &<>')
    body = I.new(domm().DOM, 'body', nodes=I.list([]), render=I.stub(lambda: text))
    nattrs = I.choice('positional', [0, 1, 2])
    kw = I.fork('keyword')
    attrs = tuple([name, 'x'][:nattrs])
    tag = h.register.tags[which]
    o = I.call(I.getattr(tag, 'expand'), body, attrs, I.dict({'k': True} if kw else {}))
    nl = I.ite(I.startswith(text, '\n'), '\n', '')
    if which == 'custom':
        if nattrs != 1: I.check('one_name_is_required', o.is_exc(TypeError)); return
        I.check('element', (not o.raised) and I.eq(o.value, '<' + name + (' k' if kw else '') + '>' + text + nl + '</' + name + '>'))
    elif nattrs or kw: I.check('no_attributes', o.is_exc(TypeError))
    else: I.check('comment', (not o.raised) and I.eq(o.value, '<!--' + text + nl + '-->'))

@contract('C02', 'Markup._expand')
def attributes_in_order(I):
    "any number of attributes: each one rendered once, in the order given, those without a rendering dropped, the others preceded by a single space"
    import hypertag.core.tag as m
    name, text = I.str('name'), I.str('text')
    n = I.int('n', lo=0)
    void = I.fork('void')
    if void: text = ''
    key = lambda i: I.f('key', 'str', i) if not I.concrete else 'k%d' % i
    val = lambda i: I.f('val', 'val', i)
    shown = lambda i: I.f('shown', 'bool', i)
    def attr(i):
        s = I.f('attr', 'str', i)
        return 'a' + s
    def render_attr(item):
        k, v = item
        i = got_index(k)
        I.check('name_and_value', I.and_(I.same(k, key(i)), I.same(v, val(i))))
        return I.ite(shown(i), attr(i), None)
    def got_index(k):
        if I.concrete: return int(k[1:])
        t = k.t
        return I_int(t.arg(0))
    d = I.dict_of('attrs', key, val, n)
    kept = I.rec('kept', 'list', I.list([]), lambda k, l: I.ite_list(shown(k), I.seqcat(l, I.list([attr(k)])), lambda: l))
    I.strings_hint()
    tag = I.new(m.Markup, name=name, void=void, mode='HTML', _render_attr=I.stub(render_attr))
    body = I.new(domm().DOM, 'body', nodes=I.list([]), render=I.stub(lambda: text))
    o = I.call(I.getattr(tag, '_expand'), name, body, d)
    I.check('no_exception', not o.raised, note=repr(o.exc))
    if o.raised: return
    inside = I.join(' ', I.seqcat(I.list([name]), kept(n)))
    nl = I.ite(I.startswith(text, '\n'), '\n', '')
    I.check('element', I.eq(o.value, '<' + inside + ' />' if void else '<' + inside + '>' + text + nl + '</' + name + '>'))
