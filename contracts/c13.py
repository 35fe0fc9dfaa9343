"C13: names resolve lexically to the innermost visible definition."
from vc.contract import contract
from contracts.lib import *

def S():
    import hypertag.core.structs as m
    return m
class Ref: "some object"

# ------------------------------------------------------------------------------------------------------------ the scope: a stack of definitions
#
# Entry i of the stack is (name_i, value_i, index of the previous entry of that name); the lookup dict holds the index of the last entry
# of every name: last(n), where last(k + 1) = last(k)[name_k := k]. Every operation is shown to keep the two in step.

class Scope:
    def __init__(self, I, cls=None, n=None, bare=False, **attrs):
        self.I = I
        self.bare = bare        # without the lemma
        self.n = n if n is not None else I.int('size', lo=0)
        self.last = I.rec('last', 'map', I.map(), lambda k, m: I.map_set(m, self.name(k), k))
        st = I.list_of(S().Stack, self.entry, self.n)
        self.ctx = I.new(cls or S().MultiDict, 'scope', stack=st, lookup=I.map_copy(self.last(self.n)), **attrs)
    def name(self, k): 
        I = self.I
        return I.f('name', 'str', k) if not I.concrete else 'abc'[I.f('name', 'int', k) % 3]
    def value(self, k): return self.I.f('value', 'val', k)
    def entry(self, k):
        self.fact(k, self.name(k))
        return (self.name(k), self.value(k), self.I.map_get(self.last(k), self.name(k)))
    def lemma(self, k, x):
        "the index of the last entry of a name, if any, is an earlier one of that name (see lemma_last)"
        I = self.I
        v = I.map_get(self.last(k), x)
        return I.or_(I.not_(I.map_has(self.last(k), x)), I.and_(I.is_int(v), I.int_of(v) >= 0, I.int_of(v) < k, I.eq(self.name(I.int_of(v)), x))) if not I.concrete else (v is None or 0 <= v < k and self.name(v) == x)
    def fact(self, k, x):
        if not self.bare: self.I.fact(self.lemma(k, x))
    def check(self, n, extra=()):
        "the first n entries, then those of extra, and the lookup that belongs to them"
        I = self.I
        if not extra:
            I.check_seq('entries', I.getattr(self.ctx, 'stack'), n, self.entry)
            I.check('lookup', I.map_eq(I.getattr(self.ctx, 'lookup'), self.last(n)))
            return
        want = I.seqcat(I.list_of(list, self.entry, n), I.list([])) if I.concrete else I.seq('entries', self.entry, n)
        m = self.last(n)
        for i, (x, v) in enumerate(extra):
            want = I.seqcat(want, I.list([(x, v, I.map_get(m, x))]))
            m = I.map_set(m, x, n + i)
        I.check('entries', I.items_eq(I.getattr(self.ctx, 'stack'), want))
        I.check('lookup', I.map_eq(I.getattr(self.ctx, 'lookup'), m))

@contract('C13', 'core.structs.MultiDict.get')
def lemma_last(I):
    "by induction: the lookup of a name is the index of an earlier entry of that name"
    s = Scope(I, bare=True)
    k, x = I.int('k', lo=0), I.choice('x', ['a', 'b']) if I.concrete else I.str('x')
    if I.fork('base'): I.check('base', s.lemma(0, x)); return
    I.assume(s.lemma(k, x))
    I.check('step', s.lemma(k + 1, x))

@contract('C13', 'core.structs.MultiDict.__getitem__', 'core.structs.MultiDict.get', 'core.structs.MultiDict.__contains__')
def lookup(I):
    "the value of the last entry of that name, of those on the stack"
    s = Scope(I)
    x = I.choice('x', ['a', 'b', 'c']) if I.concrete else I.str('x')
    s.fact(s.n, x)
    v = I.map_get(s.last(s.n), x)
    d = I.new(Ref, 'default')
    how = I.choice('how', ['item', 'get', 'get_default', 'contains'])
    if how == 'item': o = I.outcome(lambda: I.item(s.ctx, x))
    elif how == 'get': o = I.call(I.getattr(s.ctx, 'get'), x)
    elif how == 'get_default': o = I.call(I.getattr(s.ctx, 'get'), x, d)
    else:
        o = I.outcome(lambda: I.contains(s.ctx, x))
        I.check('contains', (not o.raised) and I.iff(o.value, I.not_(I.is_none(v)))); return
    if I.truth(I.is_none(v)):
        if how == 'item': I.check('key_error', o.raised and o.is_exc(KeyError))
        else: I.check('default', (not o.raised) and (o.value is None if how == 'get' else o.value is d))
        return
    I.check('last_definition', (not o.raised) and I.same(o.value, s.value(I.int_of(v))))
    s.check(s.n)

@contract('C13', 'core.structs.MultiDict.push', 'core.structs.Stack.push')
def push(I):
    "a new last entry of that name"
    s = Scope(I)
    x = I.choice('x', ['a', 'b', 'c', 'd']) if I.concrete else I.str('x')
    v = I.val('v')
    o = I.call(I.getattr(s.ctx, 'push'), x, v)
    I.check('no_exception', not o.raised)
    s.check(s.n, [(x, v)])
    I.check('visible', I.same(I.item(s.ctx, x), v))
    y = I.choice('y', ['a', 'b', 'c', 'd']) if I.concrete else I.str('y')
    if I.truth(I.eq(x, y)): return
    s.fact(s.n, y)
    w = I.map_get(s.last(s.n), y)
    o = I.call(I.getattr(s.ctx, 'get'), y)
    I.check('others_as_before', (not o.raised) and (o.value is None if I.truth(I.is_none(w)) else I.same(o.value, s.value(I.int_of(w)))))

@contract('C13', 'core.structs.MultiDict.pop')
def pop(I):
    "the last entry is removed: its name means what it did before"
    s = Scope(I)
    I.assume(s.n > 0)
    o = I.call(I.getattr(s.ctx, 'pop'))
    I.check('no_exception', not o.raised)
    I.check('entry', I.and_(I.same(o.value[0], s.name(s.n - 1)), I.same(o.value[1], s.value(s.n - 1))))
    s.check(s.n - 1)

@contract('C13', 'core.structs.MultiDict.reset', 'core.structs.MultiDict.position', 'core.structs.Stack.position', 'core.structs.Stack.size')
def reset(I):
    "back to an earlier position: exactly the entries and meanings of that time, whatever has been defined since"
    s = Scope(I)
    p = I.call(I.getattr(s.ctx, 'position'))
    I.check('position', I.eq(p.value, s.n))
    q = I.int('position', lo=0)
    I.assume(q <= s.n)
    I.index_hint('undone', lambda k: s.last(s.n - k), 'map')
    o = I.call(I.getattr(s.ctx, 'reset'), q)
    I.check('no_exception', not o.raised)
    s.check(q)
    p = I.call(I.getattr(s.ctx, 'position'))
    I.check('position_again', I.eq(p.value, q))

# ------------------------------------------------------------------------------------------------------------ names in a script
#
# The analysis runs over an arbitrary scope: any number of slots, of any names and depths.

def ctxcls():
    from hypertag.core.structs import Context
    return Context
def slotcls():
    from hypertag.core.structs import Slot
    return Slot

class Names(Scope):
    def __init__(self, I, bare=False, **attrs):
        self.depth = I.int('depth', lo=0)
        Scope.__init__(self, I, ctxcls(), None, bare, regular_depth=self.depth, **attrs)
    def name(self, k):
        I = self.I
        return I.f('name', 'str', k) if not I.concrete else ['$a', '$b', '%a'][I.f('name', 'int', k) % 3]
    def value(self, k):
        I = self.I
        return I.elem('slot', k, I.new(slotcls(), None, symbol=self.name(k), depth=I.f('slot_depth', 'int', k)))
    def visible(self, x, here=False):
        "whether there is a definition of x"
        I = self.I
        self.fact(self.n, x)
        return I.truth(I.map_has(self.last(self.n), x))
    def slot(self, x):
        "the last definition of x, when there is one"
        return self.value(self.I.int_of(self.I.map_get(self.last(self.n), x)))
    def facts(self, *names):
        for x in names or SYMS: self.fact(self.n, x)
    def unchanged(self): self.check(self.n)
    def means(self, what, x, slot):
        "what x means in the scope now"
        I = self.I
        o = I.call(I.getattr(self.ctx, 'get'), x)
        I.check(what, (not o.raised) and (o.value is None if slot is None else I.same(o.value, slot)))
    def others(self, what, x, y):
        "a symbol y, other than x, means what it did"
        I = self.I
        if x == y if I.concrete else I.truth(I.eq(x, y)): return
        self.means(what, y, self.slot(y) if self.visible(y) else None)

def symbol(I, name): return I.choice(name, ['$a', '$b', '%a', '%b', '$c']) if I.concrete else I.str(name)

@contract(['C13', 'C17'], 'NODES.variable.setup', 'NODES.variable.analyse', 'NODES.variable.evaluate', 'core.structs.Slot.get')
def variable_use(I):
    "a name is the last definition of that variable in scope, and an error where there is none; its value is the one the slot has by then, and an error if none was assigned"
    N = nodes()
    s = Names(I)
    name = I.choice('var', ['a', 'b', 'c']) if I.concrete else I.str('var')
    I.assume(I.length(name) > 0)
    I.assume(I.char(name, 0) != '$' if I.concrete else I.not_(I.eq(I.char(name, 0), '$')))
    text = name
    if I.fork('dollar'): text = '$' + name
    node = place(I, N.xvar_use)
    node.text = I.stub(lambda *a: text)
    I.run(I.getattr(node, 'setup'))
    x = '$' + name
    visible = s.visible(x)
    o = I.call(I.getattr(node, 'analyse'), s.ctx)
    s.unchanged()
    if not visible:
        I.check('undefined_variable', o.raised and o.is_exc(NameError))
        located(I, o, node); return
    I.check('defined', not o.raised)
    values = I.map_any('values')
    slot = s.slot(x)
    if I.concrete and I.fork('assigned'): values = I.map_set(values, slot, I.val('value'))
    state = I.new(State(), 'state', values=I.map_copy(values))
    o = I.call(I.getattr(node, 'evaluate'), state)
    if I.truth(I.map_has(values, slot)): I.check('value', ok(I, o, I.map_get(values, slot)))
    else: I.check('unbound', o.raised and o.is_exc(UnboundLocalError)); located(I, o, node)
    I.check('state_unchanged', I.map_eq(I.getattr(state, 'values'), values))

@contract(['C13', 'C17'], 'NODES.variable.setup', 'NODES.variable.analyse', 'NODES.xvar_def.set_inplace', 'NODES.variable.assign', 'NODES.variable.evaluate', 'core.structs.Slot.__init__', 'core.structs.Slot.set')
def variable_definition(I):
    "an assignment is to the variable of the same block if there is one; otherwise it defines another one, which leaves an outer variable of that name as it is; an in-place one reads the one in scope"
    N = nodes()
    s = Names(I)
    name = I.choice('var', ['a', 'b', 'c']) if I.concrete else I.str('var')
    I.assume(I.length(name) > 0)
    I.assume(I.char(name, 0) != '$' if I.concrete else I.not_(I.eq(I.char(name, 0), '$')))
    node = place(I, N.xvar_def)
    node.text = I.stub(lambda *a: name)
    I.run(I.getattr(node, 'setup'))
    inplace = I.fork('inplace')
    if inplace: I.run(I.getattr(node, 'set_inplace'))
    x, y = '$' + name, symbol(I, 'y')
    visible = s.visible(x)
    o = I.call(I.getattr(node, 'analyse'), s.ctx)
    if not visible and inplace:
        I.check('undefined_variable', o.raised and o.is_exc(NameError))
        located(I, o, node)
        s.unchanged(); return
    I.check('no_exception', not o.raised)
    t = I.call(I.getattr(s.ctx, 'get'), x).value
    I.check('in_scope', isinstance(t, slotcls()))
    I.check('of_this_block', I.eq(I.getattr(t, 'depth'), s.depth))
    if visible and I.truth(I.eq(I.getattr(s.slot(x), 'depth'), s.depth)): I.check('same_variable', I.same(t, s.slot(x))); s.unchanged()
    elif visible: I.check('another_variable', I.not_(I.same(t, s.slot(x))))
    s.others('other_names', x, y)
    values = I.map_any('values')
    if visible and I.concrete and I.fork('assigned'): values = I.map_set(values, s.slot(x), I.val('value'))
    state = I.new(State(), 'state', values=I.map_copy(values))
    if inplace:
        o = I.call(I.getattr(node, 'evaluate'), state)
        if I.truth(I.map_has(values, s.slot(x))): I.check('current_value', ok(I, o, I.map_get(values, s.slot(x))))
        else: I.check('unbound', o.raised and o.is_exc(UnboundLocalError)); located(I, o, node)
    v = I.val('v')
    o = I.call(I.getattr(node, 'assign'), state, v)
    I.check('assigned', (not o.raised) and I.map_eq(I.getattr(state, 'values'), I.map_set(values, t, v)))
    # at the end of the block
    I.run(I.getattr(s.ctx, 'reset'), s.n)
    s.unchanged()

@contract(['C13', 'C17'], 'NODES.xtag_use.setup', 'NODES.xtag_use.analyse', 'NODES.xtag_use.evaluate')
def tag_use(I):
    "%tag is the last definition of that tag in scope, and an error where there is none; no variable is ever meant"
    N = nodes()
    s = Names(I)
    x = '%' + (I.choice('tag', ['a', 'b', 'c']) if I.concrete else I.str('tag'))
    node = place(I, N.xtag_use)
    node.text = I.stub(lambda *a: x)
    I.run(I.getattr(node, 'setup'))
    visible = s.visible(x)
    o = I.call(I.getattr(node, 'analyse'), s.ctx)
    s.unchanged()
    if not visible:
        I.check('undefined_tag', o.raised and o.is_exc(NameError))
        located(I, o, node); return
    I.check('defined', not o.raised)
    slot = s.slot(x)
    tag = I.new(Ref, 'external')
    values = I.map_any('values')
    how = I.choice('value', ['external', 'hypertag', 'undefined'])
    if how == 'hypertag': tag = I.new(ast().Hypertag, 'hypertag', expand=I.stub(lambda *a: (I.event('expand', *a), I.new(domm().DOM, nodes=I.list([])))[1]))
    if how == 'undefined': I.assume(I.not_(I.map_has(values, slot)))
    state = I.new(State(), 'state', values=I.dict({} if how == 'undefined' else {slot: tag}))
    o = I.call(I.getattr(node, 'evaluate'), state)
    if how == 'undefined': I.check('unbound', o.raised and o.is_exc(UnboundLocalError)); located(I, o, node)
    elif how == 'external': I.check('tag', (not o.raised) and o.value is tag)
    else: I.check('tag_function', (not o.raised) and I.isinst(o.value, ast().EmbeddedHypertag))

@contract(['C13', 'C17'], 'NODES.xtag_expand.analyse')
def tag_name(I):
    "the tag is the last definition of that name in scope, found before its body is; a name with no definition is an error"
    N = nodes()
    s = Names(I)
    name = I.choice('tag', ['a', 'b', 'c']) if I.concrete else I.str('tag')
    I.assume(I.length(name) > 0)
    n = I.int('attributes', lo=0)
    def attr(k):
        def analyse(c):
            I.event('attr', k, c is s.ctx)
            if I.f('attr_raises', 'bool', k): I.raise_('attr', k)
        return I.elem('attr', k, I.new(N.xattr_unnamed, analyse=I.stub(analyse)))
    node = place(I, N.xtag_expand, name=name)
    node.attrs = I.seq('attrs', attr, n)
    t = I.rec('tr', 'val', I.nil, lambda k, t: I.push(t, I.ev('attr', k, True)))
    x = '%' + name
    visible = s.visible(x)
    o = I.call(I.getattr(node, 'analyse'), s.ctx)
    s.unchanged()
    if is_stub_error(I, o.exc, 'attr'): I.check('attribute_error', I.same(I.trace(), t(o.exc.index + 1))); return
    I.check('attributes_analysed', I.same(I.trace(), t(n)))
    if not visible:
        I.check('undefined_tag', o.raised and o.is_exc(ast().UndefinedTagEx))
        located(I, o, node); return
    I.check('defined', not o.raised)
    I.check('definition', I.same(I.getattr(node, 'tag'), s.slot(x)))

# ------------------------------------------------------------------------------------------------------------ blocks

SYMS = ['$a', '%b']
def meaning(I, s, x):
    o = I.call(I.getattr(s.ctx, 'get'), x)
    I.check('get', not o.raised)
    return o.value
def part(I, s, label, defines, cls=None, at=None, raises=True, **kw):
    "a part of a block, whose analysis defines some names at its depth; `at` gets to see the scope before that"
    def analyse(c):
        I.event(label, c is s.ctx)
        if at: at()
        if raises and I.f(label + '_raises', 'bool'): I.raise_(label)
        for x in defines: made.append((x, I.run(slotcls(), x, c)))
    made = []
    node = place(I, cls or node_base(), label, analyse=I.stub(analyse), **kw)
    node.__dict__['made'] = made
    return node
def made(node, x):
    r = [t for y, t in node.__dict__['made'] if y == x]
    return r[-1] if r else None
def trace_of(I, *labels):
    t = I.nil
    for l in labels: t = I.push(t, I.ev(l, True))
    return t

@contract('C13', 'NODES.xblock_struct.setup', 'NODES.xblock_struct.analyse', bounded='up to 2 definitions in the tags and in the body')
def tagged_block(I):
    "what is defined inside is one level deeper and visible inside only; the scope after the block is the one before it"
    N = nodes()
    s = Names(I)
    y = I.choice('probe', SYMS)
    s.facts()
    visible = s.visible(y)
    ds = [I.choice('in_' + p, [[], ['$a'], ['%b', '$a']]) for p in ('tags', 'body')]
    def before(): 
        s.means('outer_names_visible', y, s.slot(y) if visible else None)
        I.check('deeper', I.eq(I.getattr(s.ctx, 'regular_depth'), s.depth + 1))
    def then():
        t = made(tags, y)
        s.means('names_visible', y, t if t is not None else s.slot(y) if visible else None)
        I.check('deeper', I.eq(I.getattr(s.ctx, 'regular_depth'), s.depth + 1))
    tags = part(I, s, 'tags', ds[0], at=before, type='tags_expand')
    body = part(I, s, 'body', ds[1], at=then, type='body_struct')
    node = place(I, N.xblock_struct, children=I.list([tags, body]))
    I.run(I.getattr(node, 'setup'))
    o = I.call(I.getattr(node, 'analyse'), s.ctx)
    for p, l in ((tags, ['tags']), (body, ['tags', 'body'])):
        if is_stub_error(I, o.exc, l[-1]): I.check(l[-1] + '_error', I.same(I.trace(), trace_of(I, *l))); return
    I.check('analysed_in_order', (not o.raised) and I.same(I.trace(), trace_of(I, 'tags', 'body')))
    s.unchanged()
    I.check('depth_restored', I.eq(I.getattr(s.ctx, 'regular_depth'), s.depth))

@contract(['C13', 'C17'], 'NODES.xblock_def.analyse', 'NODES.attribute.declare_var', 'core.structs.ValueSlot.__init__', 'core.structs.ValueSlot.set_value', 'NODES.xblock_def.translate', bounded='up to 2 attributes and 2 definitions in the body')
def hypertag_definition(I):
    "the defaults of attributes are analysed in the scope of the definition, the body in that scope with the attributes; neither sees the hypertag; afterwards only the hypertag is added to the scope"
    N = nodes()
    control = I.choice('control', [0, 1])
    s = Names(I, control_depth=control, hypertag_depth=0)
    names, inside, y = I.choice('shape', [([], ['$a'], '$a'), (['a'], ['%b'], '%b'), (['a'], ['$a'], '$a'), (['b', 'a'], ['$a'], '$a'), (['b', 'a'], [], '$b'), (['a'], ['%t'], '%t')])
    s.facts('%t', y, *['$' + x for x in names] + inside)
    visible = s.visible(y)
    outer = lambda: s.means('outer_names_visible', y, s.slot(y) if visible else None)
    def inner():
        t = [x for x in attrs if '$' + x.name == y]
        if t: s.means('attribute', y, I.getattr(t[-1], 'slot')); I.check('attribute_slot', I.eq(I.getattr(I.getattr(t[-1], 'slot'), 'depth'), s.depth + 1))
        else: outer()
        I.check('deeper', I.eq(I.getattr(s.ctx, 'regular_depth'), s.depth + 1))
    attrs = [part(I, s, 'attr_' + x, [], N.xattr_def, at=outer, raises=False, name=x, slot=None) for x in names]
    body = part(I, s, 'body', inside, at=inner)
    node = place(I, N.xblock_def, name='t', attrs=I.list(attrs), body=body)
    o = I.call(I.getattr(node, 'analyse'), s.ctx)
    if control: I.check('inside_control_block', o.raised and o.is_exc(SyntaxError)); located(I, o, node); s.unchanged(); return
    labels = ['attr_' + x for x in names] + ['body']
    for i, l in enumerate(labels):
        if is_stub_error(I, o.exc, l): I.check(l + '_error', I.same(I.trace(), trace_of(I, *labels[:i + 1]))); return
    I.check('analysed_in_order', (not o.raised) and I.same(I.trace(), trace_of(I, *labels)))
    t = meaning(I, s, '%t')
    I.check('defined', isinstance(t, slotcls()))
    I.check('depth_restored', I.and_(I.eq(I.getattr(s.ctx, 'regular_depth'), s.depth), I.eq(I.getattr(t, 'depth'), s.depth), I.eq(I.getattr(s.ctx, 'hypertag_depth'), 0)))
    if y != '%t': outer()
    state = I.run(State())
    o = I.call(I.getattr(node, 'translate'), state)
    I.check('no_output', (not o.raised) and o.value is None)
    I.check('value', I.item(state, t) is node)
    I.run(I.getattr(s.ctx, 'reset'), s.n)
    s.unchanged()

@contract('C13', 'NODES.control_block.analyse', 'NODES.control_block._analyse_branches', 'core.structs.MultiDict.asdict', 'core.structs.MultiDict.pushnew', bounded='up to 3 branches with up to 2 definitions each')
def branches(I):
    "a branch sees what is defined before the block and by the branches before it; its definitions are at the depth of the block; after the block, names defined before it mean what they did, and others what the first branch defining them defines"
    N = nodes()
    kind, ds, y = I.choice('shape', [('while', [['%b', '$a']], '$a'), ('if', [['$a'], ['$a']], '$a'), ('try', [[], ['$a']], '$a'), ('try', [['$a'], ['%b']], '$a'), ('if', [['$a'], ['%b', '$a']], '%b'), ('if', [['$a'], ['$a'], ['$a']], '$a')])
    s = Names(I, control_depth=I.int('control', lo=0))
    s.facts()
    visible = s.visible(y)
    def now(k):
        if visible: return s.slot(y)
        t = [made(b, y) for b in bs[:k] if made(b, y) is not None]
        return t[0] if t else None
    def at(k):
        def check():
            s.means('names_visible', y, now(k))
            I.check('same_depth', I.eq(I.getattr(s.ctx, 'regular_depth'), s.depth))
            I.check('inside_control', I.getattr(s.ctx, 'control_depth') > 0)
        return check
    bs = [part(I, s, 'branch_%d' % i, d, at=at(i)) for i, d in enumerate(ds)]
    c0 = I.getattr(s.ctx, 'control_depth')
    node = place(I, {'if': N.xblock_if, 'try': N.xblock_try, 'while': N.xblock_while}[kind], children=I.list(bs))
    o = I.call(I.getattr(node, 'analyse'), s.ctx)
    labels = ['branch_%d' % i for i in range(len(bs))]
    for i, l in enumerate(labels):
        if is_stub_error(I, o.exc, l): I.check('error', I.same(I.trace(), trace_of(I, *labels[:i + 1]))); return
    I.check('analysed_in_order', (not o.raised) and I.same(I.trace(), trace_of(I, *labels)))
    s.means('names_afterwards', y, now(len(bs)))
    I.check('depth', I.and_(I.eq(I.getattr(s.ctx, 'regular_depth'), s.depth), I.eq(I.getattr(s.ctx, 'control_depth'), c0)))
    I.run(I.getattr(s.ctx, 'reset'), s.n)
    s.unchanged()

@contract('C13', 'NODES.xblock_for._analyse_branches', 'NODES.control_block.analyse', bounded='up to 2 definitions in every part')
def loop_names(I):
    "the sequence is analysed before the loop variables are defined; they and what the body and the else branch define are visible from there on, and after the loop"
    N = nodes()
    s = Names(I, control_depth=I.int('control', lo=0))
    y = I.choice('probe', SYMS)
    s.facts()
    visible = s.visible(y)
    shape = I.choice('shape', ['body', 'body_else', 'else', 'none'])
    labels = {'body': ['expr', 'targets', 'body'], 'body_else': ['expr', 'targets', 'body', 'else'], 'else': ['expr', 'targets', 'else'], 'none': ['expr', 'targets']}[shape]
    def now(k):
        t = [made(parts[l], y) for l in labels[:k] if made(parts[l], y) is not None]
        return t[-1] if t else s.slot(y) if visible else None
    def at(k):
        def check():
            s.means('names_visible', y, now(k))
            I.check('same_depth', I.eq(I.getattr(s.ctx, 'regular_depth'), s.depth))
            I.check('inside_control', I.getattr(s.ctx, 'control_depth') > 0)
        return check
    parts = {l: part(I, s, l, [] if l == 'expr' else I.choice('in_' + l, [[], ['%b', '$a']]), at=at(i)) for i, l in enumerate(labels)}
    c0 = I.getattr(s.ctx, 'control_depth')
    node = place(I, N.xblock_for, expr=parts['expr'], targets=parts['targets'], body=parts.get('body'), else_=parts.get('else'), children=I.list([parts[l] for l in labels]))
    o = I.call(I.getattr(node, 'analyse'), s.ctx)
    for i, l in enumerate(labels):
        if is_stub_error(I, o.exc, l): I.check('error', I.same(I.trace(), trace_of(I, *labels[:i + 1]))); return
    I.check('analysed_in_order', (not o.raised) and I.same(I.trace(), trace_of(I, *labels)))
    s.means('names_afterwards', y, now(len(labels)))
    I.check('depth', I.and_(I.eq(I.getattr(s.ctx, 'regular_depth'), s.depth), I.eq(I.getattr(s.ctx, 'control_depth'), c0)))

@contract('C13', 'NODES.xblock_assign.analyse', 'NODES.xtargets.analyse', 'NODES.node.analyse')
def assignment_names(I):
    "the value is analysed in the scope before the assignment, then the targets from left to right"
    N = nodes()
    s = Names(I)
    y = I.choice('probe', SYMS)
    visible = s.visible(y)
    unchanged = lambda: s.means('scope_before', y, s.slot(y) if visible else None)
    expr = part(I, s, 'expr', [], at=unchanged)
    n = I.int('targets', lo=0)
    def target(k):
        def analyse(c):
            I.event('target', k, c is s.ctx)
            if I.f('target_raises', 'bool', k): I.raise_('target', k)
        return I.elem('target', k, I.new(N.xvar_def, analyse=I.stub(analyse)))
    targets = place(I, N.xtargets, children=I.seq('targets', target, n))
    node = place(I, N.xblock_assign, expr=expr, targets=targets, children=I.list([targets, expr]))
    t = I.rec('tr', 'val', trace_of(I, 'expr'), lambda k, t: I.push(t, I.ev('target', k, True)))
    o = I.call(I.getattr(node, 'analyse'), s.ctx)
    if is_stub_error(I, o.exc, 'expr'): I.check('value_error', I.same(I.trace(), t(0))); return
    if is_stub_error(I, o.exc, 'target'): I.check('target_error', I.same(I.trace(), t(o.exc.index + 1))); return
    I.check('all', (not o.raised) and I.same(I.trace(), t(n)))
    s.unchanged()

@contract('C13', 'NODES.node.analyse')
def any_node(I):
    "every part of a node is analysed, from left to right, over the same scope"
    N = nodes()
    s = Names(I)
    n = I.int('children', lo=0)
    def child(k):
        def analyse(c):
            I.event('child', k, c is s.ctx)
            if I.f('child_raises', 'bool', k): I.raise_('child', k)
        return I.elem('child', k, I.new(N.xblock_text if hasattr(N, 'xblock_text') else N.node, analyse=I.stub(analyse)))
    cls = I.choice('kind', [N.node, N.xtags_expand, N.xbody_struct, N.xline_markup, N.xfactor, N.xattr_named, N.xclause_if, N.xclause_else, N.xblock_expr, N.xblock_embed, N.xcall, N.xexpr, N.xifelse_test, N.xindex, N.xslice_value, N.xkwarg, N.xblock_markup])
    node = place(I, cls, children=I.seq('children', child, n))
    t = I.rec('tr', 'val', I.nil, lambda k, t: I.push(t, I.ev('child', k, True)))
    o = I.call(I.getattr(node, 'analyse'), s.ctx)
    if is_stub_error(I, o.exc, 'child'): I.check('error', I.same(I.trace(), t(o.exc.index + 1))); return
    I.check('all', (not o.raised) and I.same(I.trace(), t(n)))
    s.unchanged()

@contract('C13', 'core.structs.MultiDict.pushall', 'core.structs.MultiDict.pushnew', 'core.structs.MultiDict.asdict', bounded='up to 2 symbols')
def push_many(I):
    "pushall: all the symbols, in order; pushnew: those not defined yet; asdict: the last definition of every name since the position given"
    s = Names(I)
    xs, y = I.choice('symbols', [([], '$a'), (['$a'], '$a'), (['$a', '%b'], '%b'), (['%b', '$a'], '$c')])
    s.facts(y, *xs)
    visible = s.visible(y)
    vs = {x: I.new(slotcls(), None, symbol=x, depth=s.depth) for x in xs}
    new = I.fork('only_new')
    o = I.call(I.getattr(s.ctx, 'pushnew' if new else 'pushall'), I.dict(vs))
    I.check('no_exception', not o.raised)
    s.means('meaning', y, s.slot(y) if visible and (new or y not in xs) else vs.get(y))
    if not new:
        o = I.call(I.getattr(s.ctx, 'asdict'), s.n)
        I.check('since', (not o.raised) and I.eq(I.length(o.value), len(xs)))
        for x in xs: I.check('since_symbol', I.item(o.value, x) is vs[x])
    I.run(I.getattr(s.ctx, 'reset'), s.n)
    s.unchanged()

@contract(['C13', 'C15'], 'NODES.xblock.setup', 'NODES.xblock.analyse')
def prolog(I):
    "the prolog ends with the first block that is neither a context specification nor a comment; the block is analysed in the scope around it"
    N = nodes()
    p = I.fork('in_prolog')
    s = Names(I, in_prolog=p)
    kind = I.choice('type', ['block_comment', 'block_context', 'block_markup', 'block_normal', 'block_verbat', 'block_embed', 'block_struct', 'block_def', 'block_import', 'block_if', 'block_try', 'block_for', 'block_while', 'block_expr', 'block_assign'])
    want = p and kind in ('block_comment', 'block_context')
    block = part(I, s, 'block', [], at=lambda: I.check('prolog_inside', I.iff(I.getattr(s.ctx, 'in_prolog'), want)), type=kind)
    kids = [place(I, N.xmargin_out, type='margin_out', analyse=I.stub(lambda c: None))] + ([place(I, node_base(), value='...', analyse=I.stub(lambda c: None))] if I.fork('modifier') else []) + [block]
    node = place(I, N.xblock, children=I.list(kids))
    I.run(I.getattr(node, 'setup'))
    o = I.call(I.getattr(node, 'analyse'), s.ctx)
    I.check('analysed_once', I.same(I.trace(), trace_of(I, 'block')))
    if is_stub_error(I, o.exc, 'block'): return
    I.check('prolog', (not o.raised) and I.iff(I.getattr(s.ctx, 'in_prolog'), want))
    s.unchanged()

@contract('C13', 'core.grammar.TAG', 'core.grammar.VAR', 'core.grammar.IS_TAG', 'core.grammar.IS_VAR')
def namespaces(I):
    "the symbols of tags and of variables of any names: different names give different symbols, and no tag shares its symbol with a variable"
    import hypertag.core.grammar as g
    a, b = I.str('a'), I.str('b')
    TAG = lambda s: I.run(g.TAG, s)
    VAR = lambda s: I.run(g.VAR, s)
    I.check('tags_are_distinct', I.iff(I.eq(TAG(a), TAG(b)), I.eq(a, b)))
    I.check('variables_are_distinct', I.iff(I.eq(VAR(a), VAR(b)), I.eq(a, b)))
    I.check('separate_namespaces', I.not_(I.eq(TAG(a), VAR(b))))
    I.check('recognized', I.and_(I.truth(I.run(g.IS_TAG, TAG(a))), I.truth(I.run(g.IS_VAR, VAR(a))), I.not_(I.truth(I.run(g.IS_TAG, VAR(a)))), I.not_(I.truth(I.run(g.IS_VAR, TAG(a))))))
