"C18: rendering is deterministic and independent of earlier renderings."
from vc.contract import contract
from contracts.lib import *

def R():
    import hypertag.core.runtime as m
    return m
class Ref: "some object"

def frame(I, *objs):
    "the attributes of the objects, to be compared later"
    snap = [(x, {k: v for k, v in x.__dict__.items()}) for x in objs]
    def unchanged():
        for x, d in snap:
            now = x.__dict__
            for k in d:
                if k in ('_vterm',): continue
                if k not in now or now[k] is not d[k]: return False
            for k in now:
                if k not in d and not k.startswith('_'): return False
        return True
    return unchanged

# ------------------------------------------------------------------------------------------------------------ built-ins

@contract('C18', 'core.runtime.Runtime.import_builtins', 'core.runtime.Runtime.translate', bounded='up to 3 modules of built-ins with up to 2 symbols')
def builtins(I):
    "every script gets the same symbols, from all modules, later ones first, and __file__ and __package__ of its own; what happens to the symbols of one script does not affect later ones or the modules"
    m = R()
    sets = I.choice('modules', [[], [['$a']], [['$a', '%t'], ['%t', '$b']], [['$a'], [], ['%t', '$a']]])
    paths = ['m%d' % i for i in range(len(sets))]
    want, mods = {}, {}
    for i, names in enumerate(sets):
        d = {x: I.val('%s%d' % (x[1:], i)) for x in names}
        want.update(d)
        mods[paths[i]] = I.new(m.Module, paths[i], symbols=I.dict(d))
    fails = I.f('fails', 'bool') if paths else False
    calls = []
    def imp(path, ref, node):
        calls.append(path)
        if I.truth(fails) and path == paths[-1] and calls.count(path) == 1: I.raise_('import')
        return mods[path]
    rt = I.run(m.Runtime)
    I.setattr(rt, 'BUILTINS', paths); I.setattr(rt, 'import_module', I.stub(imp))
    given = []
    def tr(self, symbols, tags, **vs):
        file, package = [(None, None), ('f1', None), ('f2', 'p2')][len(given)]
        I.check('number', I.eq(I.length(symbols), len(want) + 2))
        for k, v in want.items(): I.check('symbol', I.and_(I.contains(symbols, k), I.same(I.item(symbols, k), v) if I.truth(I.contains(symbols, k)) else False))
        I.check('file_and_package', I.and_(I.same(I.item(symbols, '$__file__'), file), I.same(I.item(symbols, '$__package__'), package)))
        given.append(symbols)
        return self
    I.contract(m.HyModule.translate, tr)
    for n in range(4):
        o = I.call(I.getattr(rt, 'translate'), I.str('script%d' % n), *[(), ('f1',), ('f2', 'p2')][len(given)] if len(given) < 3 else ())
        if n == 0 and paths and I.truth(fails):
            I.check('import_error', is_stub_error(I, o.exc, 'import'))
            continue
        I.check('no_exception', not o.raised)
        if len(given) == 3: break
    for i, names in enumerate(sets):
        s = I.getattr(mods[paths[i]], 'symbols')
        I.check('modules_unchanged', I.eq(I.length(s), len(names)))

@contract('C18', 'core.runtime.Runtime.__init__', 'core.runtime.Loader.__init__', 'core.runtime.HyLoader.__init__', 'core.runtime.Loader.load', 'core.runtime.HyLoader.load', 'core.runtime.Runtime.import_module', 'core.runtime.Runtime.import_builtins')
def runtimes(I):
    "a script that two runtimes import is translated by each of them, with its own built-ins; nothing that one runtime has loaded is visible in the other"
    from contracts.c15 import patch_files, module
    m = R()
    folder, location, filename = I.f('dirname', 'str'), I.f('location', 'str'), I.str('filename')
    I.assume(I.and_(I.length(folder) > 0, I.length(location) > 0, I.length(filename) > 0))
    if I.concrete: folder, location = '/' + folder, '/nowhere/' + location
    I.contract(m.join_path, lambda base, p, sep='.', ext=None: None if base is None else location, helper=True)
    patch_files(I, m, {'location': (location, True)}, {'dirname': (filename, folder)})
    path = '.' + I.str('rest')
    ref = module(I, 'ref', filename=filename, package=None)
    rts, made, symbols = [], [], []
    for k in range(2):
        rt = I.run(m.Runtime)
        def mk(k):
            def translate(script, loc=None, package=None, *a, **kw):
                I.event('translate', k)
                return made[k]
            return translate
        made.append(module(I, 'made%d' % k))
        I.setattr(rt, 'translate', I.stub(mk(k)))
        rts.append(rt)
    for k in (0, 1, 0, 1):
        o = I.call(I.getattr(rts[k], 'import_module'), path, ref, None)
        I.check('own_module', ok(I, o, made[k]))
    for k, rt in enumerate(rts):
        v = I.val('b%d' % k)
        symbols.append(v)
        mod = I.new(m.Module, 'm%d' % k, symbols=I.dict({'$b': v}))
        I.setattr(rt, 'BUILTINS', ['x']); I.setattr(rt, 'import_module', I.stub(lambda p, r, n, mod=mod: mod))
    for k in (0, 1, 0, 1):
        o = I.call(I.getattr(rts[k], 'import_builtins'))
        I.check('own_builtins', (not o.raised) and I.same(I.item(o.value, '$b'), symbols[k]))

# ------------------------------------------------------------------------------------------------------------ translation

@contract(['C18', 'C15'], 'core.runtime.Runtime.translate', 'core.runtime.Runtime.render')
def runtime_translate(I):
    "a new module for every translation, of the given script, file and package; the built-ins are those of the runtime, __file__ and __package__"
    m = R()
    script = I.str('script')
    file, package = (I.str('file') if I.fork('has_file') else None), (I.str('package') if I.fork('has_package') else None)
    tags = I.choice('tags', ['none', 'some'])
    td = None if tags == 'none' else I.new(Ref, 'tags')
    variables = {k: I.val('var_' + k) for k in I.choice('variables', [[], ['a'], ['a', 'builtins', 'script', 'self_', 'package']])}
    bv = I.val('builtin')
    rt = I.new(m.Runtime, 'rt', import_builtins=I.stub(lambda: I.dict({'$b': bv, '%t': 1})), loaders=I.list([]))
    root = I.new(domm().DOM.Root, 'dom', render=I.stub(lambda *a: I.f('out', 'str')))
    seen = []
    def tr(self, __builtins, __tags, **vs):
        seen.append(self)
        I.check('builtins', I.and_(I.same(I.item(__builtins, '$b'), bv), I.same(I.item(__builtins, '$__file__'), file), I.same(I.item(__builtins, '$__package__'), package), I.eq(I.length(__builtins), 4)))
        I.check('caller_symbols', I.and_(__tags is td, sorted(vs) == sorted(variables), *[I.same(vs[k], variables[k]) for k in vs]))
        I.check('module', I.and_(I.same(I.getattr(self, 'script'), script), I.same(I.getattr(self, 'filename'), file), I.same(I.getattr(self, 'package'), package), I.getattr(self, 'runtime') is rt))
        if I.f('fails', 'bool'): I.raise_('translate')
        I.setattr(self, 'dom', root)
        return self
    I.contract(m.HyModule.translate, tr)
    f = I.choice('entry', ['translate', 'render'])
    for k in range(2):
        o = I.call(I.getattr(rt, f), script, file, package, td, **variables)
        if I.f('fails', 'bool'): I.check('error_propagates', is_stub_error(I, o.exc, 'translate')); continue
        I.check('no_exception', not o.raised)
        I.check('result', o.value is seen[-1] if f == 'translate' else I.eq(o.value, I.f('out', 'str')))
    I.check('a_new_module_each_time', len(seen) == 2 and seen[0] is not seen[1])

@contract('C18', 'core.runtime.HyModule.translate', 'HypertagAST.translate', 'HypertagAST.analyse')
def module_translate(I):
    "every translation parses the script of the module anew, analyses it in an empty scope and executes it in an empty state"
    from hypertag.core.structs import Context
    m, A = R(), ast().HypertagAST
    script, sym = I.str('script'), I.new(Ref, 'symbols')
    root_dom = I.new(domm().DOM.Root, 'dom', nodes=I.list([]))
    b, td = I.new(Ref, 'builtins'), I.new(Ref, 'tags')
    v = I.val('v')
    made = []
    context = I.new(Ref, 'context')
    I.contract(A.make_context, lambda t, vs: (I.check('caller_symbols', t is td and list(vs) == ['x'] and I.same(vs['x'], v)), context)[1])
    contexts, states = [], []
    def init(self, s, module, *a, **k):
        I.event('parse', s, module is mod)
        if I.f('parse_raises', 'bool'): I.raise_('parse')
        made.append(self)
        def predefine(g): I.event('predefine', g is b)
        def analyse(ctx):
            I.check('empty_scope', isinstance(ctx, Context) and all(ctx is not c for c in contexts) and I.eq(I.length(I.getattr(ctx, 'lookup')), 0) and I.eq(I.getattr(I.getattr(ctx, 'stack'), 'size'), 0) if not I.concrete else len(ctx.stack) == 0)
            contexts.append(ctx)
            I.check('context_known', I.getattr(self, 'context') is context)
            I.event('analyse')
            if I.f('analyse_raises', 'bool'): I.raise_('analyse')
        def translate(state):
            I.check('empty_state', all(state is not s for s in states) and I.eq(I.length(I.getattr(state, 'values')), 0) and I.same(I.getattr(state, 'indentation'), '\n'))
            states.append(state)
            I.event('translate')
            if I.f('translate_raises', 'bool'): I.raise_('translate')
            return root_dom, sym
        I.setattr(self, 'root', I.new(nodes().xdocument, None, predefine=I.stub(predefine), analyse=I.stub(analyse), translate=I.stub(translate)))
        I.setattr(self, 'runtime', I.getattr(mod, 'runtime'))
    I.contract(A.__init__, init)
    mod = I.new(m.HyModule, 'mod', script=script, runtime=I.new(Ref, 'rt'), filename=None, package=None)
    parse, rest = I.ev('parse', script, True), [I.ev('predefine', True), I.ev('analyse'), I.ev('translate')]
    for k in range(2):
        I.clear_trace()
        o = I.call(I.getattr(mod, 'translate'), b, td, x=v)
        for n, label in enumerate(['parse', 'analyse', 'translate']):
            if I.f(label + '_raises', 'bool'):
                I.check('error_propagates', is_stub_error(I, o.exc, label)); return
        I.check('no_exception', not o.raised)
        I.check('parsed_analysed_translated', I.same(I.trace(), I.push(I.nil, parse, *rest)))
        I.check('module', o.value is mod and I.getattr(mod, 'dom') is root_dom and I.getattr(mod, 'symbols') is sym and I.getattr(mod, 'state') is states[k])
    I.check('parsed_anew', len(made) == 2 and made[0] is not made[1])

@contract('C18', 'DOM.Root.render', 'DOM.Node.render', 'DOM.Text.render', 'DOM.Node._render_body', 'DOM.render')
def render_again(I):
    "rendering changes nothing in the document, and gives the same result again"
    D = domm().DOM
    cls = I.choice('cls', ['Root', 'Node', 'tagged', 'Text'])
    attrs = I.choice('attrs', ['none', 'some'])
    indent = I.choice('indent', [None, '', '\t'])
    n = I.int('n', lo=0)
    text = I.str('text')
    def mk(i):
        def render():
            if I.f('raises', 'bool', i): I.raise_('child', i)
            return I.f('r', 'str', i)
        return I.elem('c', i, bare(I, D.Node, render=I.stub(render)))
    children = I.seq('c', mk, n)
    body = I.new(D, 'body', nodes=children)
    positional = I.list([I.val('a0')]) if attrs == 'some' else None
    keyword = I.dict({'k': I.val('k0')}) if attrs == 'some' else None
    def expand(b, a, k):
        if I.f('tag_raises', 'bool'): I.raise_('tag')
        return I.f('expanded', 'str')
    tag = I.new(Ref, 'tag', expand=I.stub(expand)) if cls == 'tagged' else None
    x = I.new(getattr(D, 'Node' if cls == 'tagged' else cls), 'x', tag=tag, body=None if cls == 'Text' else body, indent=indent, outline=I.fork('outline'), text=text if cls == 'Text' else None, attrs=positional, kwattrs=keyword)
    I.rec('joined', 'str', '', lambda k, acc: acc + I.f('r', 'str', k))
    fine = I.rec('fine', 'bool', True, lambda k, g: I.and_(g, I.not_(I.f('raises', 'bool', k))))
    same = frame(I, x, body)
    a = I.call(I.getattr(x, 'render'))
    I.check('frame', same())
    b = I.call(I.getattr(x, 'render'))
    I.check('frame_again', same())
    if is_stub_error(I, a.exc, 'child') and not b.raised: I.check('same_outcome', I.not_(fine(n)) if I.concrete else I.not_(I.and_(fine(n), fine(a.exc.index + 1))))
    elif is_stub_error(I, b.exc, 'child') and not a.raised: I.check('same_outcome', I.not_(fine(n)) if I.concrete else I.not_(I.and_(fine(n), fine(b.exc.index + 1))))
    else: I.check('same_outcome', a.raised == b.raised)
    if not a.raised and not b.raised: I.check('same_text', I.eq(a.value, b.value))
    I.check('children_unchanged', I.eq(I.length(children), n))

# ------------------------------------------------------------------------------------------------------------ the document node

@contract(['C18', 'C13', 'C15'], 'NODES.xdocument.predefine', 'NODES.xdocument.analyse', 'NODES.xdocument.translate', bounded='up to 2 built-ins and 3 top-level definitions')
def document(I):
    "the built-ins are declared before everything else and have their values at the beginning; the symbols of the module are the top-level definitions with the values they have at the end, the last of each name, and no built-ins"
    N = nodes()
    from hypertag.core.structs import Context, Slot
    bn = I.choice('builtins', [['$b'], ['$a', '%t']])
    bv = {x: I.val('b_' + x[1:]) for x in bn}
    defs = I.choice('definitions', [[], ['$x'], ['$x', '%t', '$x'], ['$a', '%f', '$y']])
    g = I.dict(bv)
    ctx = I.run(Context)
    slots, vals = [], [I.val('d%d' % i) for i in range(len(defs))]
    state = I.run(State())
    def child(i):
        def analyse(c):
            I.event('analyse', i)
            if I.f('analyse_raises', 'bool', i): I.raise_('analyse', i)
            slots.append(I.run(Slot, defs[i], c))
        def translate(st):
            I.event('translate', i, st is state)
            if I.f('translate_raises', 'bool', i): I.raise_('translate', i)
            for x in bn: I.check('built_in_defined', I.same(I.item(st, I.item(I.getattr(doc, 'slots_in'), x)), bv[x]))
            if I.f('defined', 'bool', i): I.run(I.getattr(slots[i], 'set'), st, vals[i])
            return I.new(domm().DOM, nodes=I.list([]))
        return I.new(N.xblock, analyse=I.stub(analyse), translate=I.stub(translate))
    doc = I.new(N.xdocument, children=I.list([child(i) for i in range(len(defs))]))
    I.run(I.getattr(doc, 'predefine'), g)
    o = I.call(I.getattr(doc, 'analyse'), ctx)
    k = I.nevents()
    t = I.nil
    for i in range(k): t = I.push(t, I.ev('analyse', i))
    I.check('analysed_in_order', I.same(I.trace(), t))
    if is_stub_error(I, o.exc, 'analyse'): I.check('analysis_error', I.eq(o.exc.index, k - 1)); return
    I.check('all_analysed', (not o.raised) and k == len(defs))
    for x in bn:
        if x not in defs: I.check('built_in_visible', I.same(I.getattr(I.item(ctx, x), 'value'), bv[x]))
    for i, x in enumerate(defs):
        if x not in defs[i + 1:]: I.check('definition_overrides', I.item(ctx, x) is slots[i])
    I.clear_trace()
    o = I.call(I.getattr(doc, 'translate'), state)
    k = I.nevents()
    t = I.nil
    for i in range(k): t = I.push(t, I.ev('translate', i, True))
    I.check('translated_in_order', I.same(I.trace(), t))
    if is_stub_error(I, o.exc, 'translate'): I.check('translation_error', I.eq(o.exc.index, k - 1)); return
    I.check('all_translated', (not o.raised) and k == len(defs))
    root, syms = o.value
    I.check('root', isinstance(root, domm().DOM.Root))
    n = 0
    for i, x in enumerate(defs):
        if x in defs[i + 1:]: continue
        if I.truth(I.f('defined', 'bool', i)):
            n += 1
            I.check('symbol', I.and_(I.contains(syms, x), I.same(I.item(syms, x), vals[i]) if I.truth(I.contains(syms, x)) else False))
        else: I.check('undefined_symbol_absent', I.not_(I.contains(syms, x)))
    I.check('only_definitions', I.eq(I.length(syms), n))
