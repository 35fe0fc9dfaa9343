"C15: imports and context blocks."
from vc.contract import contract
from contracts.lib import *

def R():
    import hypertag.core.runtime as m
    return m
def errors():
    import hypertag.core.errors as m
    return m

# ------------------------------------------------------------------------------------------------------------ relative paths

@contract('C15', 'core.runtime.join_path')
def relative_path(I):
    "n leading dots: n-1 levels above the base, for any base, any n, any path and both kinds of separators; too many levels are an error"
    I.feasibility_ms(150)
    sep, ext, trailing = [('/', '.hy', False), ('/', None, True), ('.', 'default', False), ('.', 'default', True)][I.choice('variant', [0, 1, 2, 3])]
    b = I.str('base', alphabet='ab//' if sep == '/' else 'ab..')
    if not trailing: I.assume(I.not_(I.eq(b[-1:], sep)))
    dots = I.int('dots', lo=1, hi=None)
    depth = I.int('depth', lo=0)                                    # number of separators in b: the levels it can go up
    if I.concrete:
        p = '.' * dots + I.str('rest', alphabet='ab.').lstrip('.')
        depth = b.count(sep)
    else:
        p = I.str('path')
        I.assume(I.length(p) >= dots)
        I.fact(I.eq(I.char(p, 0), '.'))
    up = I.rec('up', 'str', b, lambda k, u: I.parent(u, sep) if not I.concrete or sep in u else u)
    def facts(k):
        u = up(k)
        if I.concrete and k > min(depth, dots - 1): return u
        I.fact(I.iff(I.contains(u, sep), k < depth))
        I.fact(I.iff(I.eq(I.char(p, k + 1), '.'), k + 1 < dots))
        return u
    def step(k, g):
        facts(k); facts(k + 1)
        return I.and_(g, k < depth, k < dots - 1)
    facts(0)
    enough = I.rec('enough', 'bool', True, step)
    I.index_hint('path', lambda k: I.suffix(p, k + 1), 'str')
    base = b + sep if trailing else b
    args = {'default': (), None: (sep, None), '.hy': (sep, ext)}[ext]
    o = I.call(R().join_path, base, p, *args)
    if o.raised:
        I.check('import_error', o.is_exc(errors().ImportErrorEx))
        I.check('only_above_the_top', depth < dots - 1)
        return
    I.check('within_the_top', depth >= dots - 1)
    want = up(dots - 1) + sep + I.replace(I.suffix(p, dots), {'.': sep})
    I.check('path', I.eq(o.value, want + '.hy' if ext == '.hy' else want))

@contract('C15', 'core.runtime.join_path')
def no_base(I):
    "a relative path has no meaning for a referrer without a location"
    o = I.call(R().join_path, None, I.choice('p', ['.a', '..a.b']), I.choice('sep', ['.', '/']), I.choice('ext', [None, '.hy']))
    I.check('none', ok(I, o, None))

# ------------------------------------------------------------------------------------------------------------ modules

class Ref:
    "a module as a referrer or as a result"
def module(I, name, **kw): return I.new(Ref, name, **kw)

@contract('C15', 'core.runtime.Loader._make_absolute', 'core.runtime.PyLoader._find', 'core.runtime.Loader.load', 'core.runtime.PyLoader._read')
def python_modules(I):
    "a Python module is identified by its absolute path, computed from the package of the script; it is wrapped once, and then always the same"
    m = R()
    relative = I.fork('relative')
    path = I.str('path')
    I.assume(I.iff(I.eq(I.char(path, 0), '.'), relative))
    pkg = I.choice('package', ['given', 'none'])
    package = None if pkg == 'none' else I.str('package')
    loc = I.f('join', 'str', path) if relative else path
    def join(base, p, sep='.', ext=None):
        if base is None: return None
        I.check('joined_with_the_package', I.and_(I.eq(base, package), I.eq(p, path), sep == '.', ext is None))
        return loc
    I.contract(m.join_path, join, helper=True)
    known = I.choice('cache', ['empty', 'other', 'known'])
    other = I.str('other')
    if known == 'other': I.assume(I.not_(I.eq(other, loc)))
    old = module(I, 'old')
    cache = I.dict({})
    if known != 'empty': I.setitem(cache, other if known == 'other' else loc, old)
    missing = I.fork('missing')
    made, got = module(I, 'made'), module(I, 'python')
    def imp(name):
        I.event('import', name)
        if missing: I.exc(ModuleNotFoundError('missing'))
        return got
    def wrap(mod):
        I.event('wrap', mod)
        return made
    patch_lib(I, m, 'importlib', import_module=I.stub(imp))
    I.patch(m, 'PyModule', I.stub(wrap))
    ld = I.new(m.PyLoader, cache=cache)
    ref, rt = module(I, 'ref', package=package), module(I, 'rt')
    o = I.call(I.getattr(ld, 'load'), path, ref, rt)
    I.check('no_exception', not o.raised)
    if relative and package is None: I.check('no_package', o.value is None and I.same(I.trace(), I.nil)); return
    if known == 'known': I.check('same_module', o.value is old and I.same(I.trace(), I.nil)); return
    if missing: I.check('missing', o.value is None and I.same(I.trace(), I.push(I.nil, I.ev('import', loc)))); return
    I.check('module', o.value is made and I.same(I.trace(), I.push(I.nil, I.ev('import', loc), I.ev('wrap', got))))
    o = I.call(I.getattr(ld, 'load'), path, ref, rt)
    I.check('same_module_again', ok(I, o, made) and I.same(I.trace(), I.push(I.nil, I.ev('import', loc), I.ev('wrap', got))))

class Lib:
    "a library module with some functions replaced"
    def __init__(self, mod, fns): self.__dict__.update({k: v for k, v in vars(mod).items() if not k.startswith('__')}); self.__dict__.update(fns)

def patch_lib(I, m, name, **fns):
    "calls of the library's functions, made by the code under contract, satisfy their contracts"
    lib = getattr(m, name)
    if I.concrete:
        for k, f in fns.items(): I.patch(lib, k, f)
    else: I.patch(m, name, Lib(lib, fns))

@contract('C15', 'core.runtime.HyLoader.load', 'core.runtime.HyLoader._join_path')
def relative_script(I):
    "a relative path denotes the file below the folder of the importing script, whatever the current directory; its package follows that of the script; read once"
    m = R()
    path = I.str('rest')
    path = '.' + path
    file, pkg = I.fork('file'), I.fork('package')
    folder = I.f('dirname', 'str')
    if not I.concrete: I.assume(I.length(folder) > 0)
    else: folder = '/' + folder
    package = I.str('package') if pkg else None
    location, python_path = I.f('location', 'str'), I.f('python_path', 'str')
    if I.concrete: location, python_path = '/nowhere/' + location, 'a.b.c'
    def join(base, p, sep='.', ext=None):
        I.check('path_joined', I.eq(p, path))
        if sep == '.' and ext is None: 
            if base is None: return None
            I.check('package_of_the_script', I.eq(base, package)); return python_path
        I.check('folder_of_the_script', I.and_(I.eq(base, folder), sep == '/', ext == '.hy'))
        return location
    I.contract(m.join_path, join, helper=True)
    cached = I.choice('cache', ['empty', 'other', 'known'])
    old = module(I, 'old')
    other = I.str('other')
    I.assume(I.not_(I.eq(other, location)))
    I.assume(I.length(location) > 0)
    cache = I.dict({})
    if cached != 'empty': I.setitem(cache, other if cached == 'other' else location, old)
    exists = I.fork('exists')
    filename = I.str('filename')
    I.assume(I.length(filename) > 0)
    patch_files(I, m, {'location': (location, exists)}, {'dirname': (filename, folder)})
    text = I.f('script', 'str')
    made = module(I, 'made')
    def translate(script, loc=None, package=None, *a, **k):
        I.event('translate', script, loc, package)
        return made
    rt = module(I, 'rt', translate=I.stub(translate))
    ld = I.new(m.HyLoader, cache=cache, resolve=None)
    ref = module(I, 'ref', filename=filename if file else None, package=package)
    o = I.call(I.getattr(ld, 'load'), path, ref, rt)
    I.check('no_exception', not o.raised)
    if not file: I.check('no_folder', o.value is None and I.same(I.trace(), I.nil)); return
    if cached == 'known': I.check('same_module', o.value is old and I.same(I.trace(), I.nil)); return
    if not exists: I.check('missing', o.value is None and I.same(I.trace(), I.nil)); return
    expected = I.parent(python_path, '.') if pkg else None
    if pkg: I.assume(I.contains(python_path, '.'))
    tr = I.push(I.nil, I.ev('open', location), I.ev('translate', text, location, expected))
    I.check('translated_once', I.same(I.trace(), tr))
    I.check('module', o.value is made)
    I.check('location', I.and_(I.same(getattr(made, 'location', None), location), I.same(getattr(made, 'package', None), expected)))
    o = I.call(I.getattr(ld, 'load'), path, ref, rt)
    I.check('same_module_again', ok(I, o, made) and I.same(I.trace(), tr))

def patch_files(I, m, files, dirs):
    "the file system: known files; folders of known files"
    import os, builtins
    path = os.path
    def exists(p):
        for loc, there in files.values():
            if I.truth(I.eq(p, loc)): return there
        if I.concrete: return real_exists(p)
        return I.f('exists', 'bool', p)
    def dirname(p):
        for f, d in dirs.values():
            if I.truth(I.eq(p, f)): return d
        if I.concrete: return real_dirname(p)
        return I.f('dirname_of', 'str', p)
    class File:
        def __init__(self): self.read = I.stub(lambda *a: I.f('script', 'str')); self.close = I.stub(lambda: None)
        def __enter__(self): return self
        def __exit__(self, *a): return False
    def opn(p, *a, **k):
        if I.concrete and p not in [loc for loc, _ in files.values()]: return real_open(p, *a, **k)
        I.event('open', p)
        return File()
    real_exists, real_dirname, real_open = os.path.exists, os.path.dirname, builtins.open
    if I.concrete:
        I.patch(os.path, 'exists', exists); I.patch(os.path, 'isfile', exists); I.patch(os.path, 'dirname', dirname); I.patch(builtins, 'open', opn)
        I.patch(os, 'getcwd', lambda: '/cwd')
    else:
        I.patch(m, 'os', Lib(os, dict(path=Lib(os.path, dict(exists=I.stub(exists), isfile=I.stub(exists), dirname=I.stub(dirname))), getcwd=I.stub(lambda: '/cwd'))))
        I.contract(open, opn)

@contract('C15', 'core.runtime.HyLoader.load', bounded='absolute paths of 1, 2 and 3 names')
def absolute_script(I):
    "the first existing of: what resolve() says, the file in the Python package, below the current folder, below the folder of the script; read once"
    m = R()
    path = I.choice('path', ['m', 'p.m', 'p.q.m'])
    parent, name = path.rpartition('.')[0], path.rpartition('.')[2]
    below = path.replace('.', '/') + '.hy'
    resolve = I.choice('resolve', ['no', 'none', 'file'])
    resolved = '/resolved/x.hy'
    pack = I.choice('python_package', ['missing', 'namespace', 'regular']) if parent else 'missing'
    byref = I.fork('file')
    package = I.choice('package', [None, 'r'])
    there = {}
    def exists(p):
        if p not in there: there[p] = I.fork('exists_' + str(len(there)))
        return there[p]
    order = []
    if resolve == 'file': order.append((resolved, None))
    if pack == 'regular': order.append(('/site/' + parent.replace('.', '/') + '/' + name + '.hy', parent))
    order.append(('/cwd/' + below, None))
    if byref: order.append(('/ref/' + below, None if package is None else package + ('.' + parent if parent else '')))
    for p, _ in order: exists(p)
    def imp(n, *a):
        I.check('parent_package', n == parent)
        if pack == 'missing': I.exc(ModuleNotFoundError('missing', name=n))
        return module(I, 'pkg', __file__=None if pack == 'namespace' else '/site/' + n.replace('.', '/') + '/__init__.py')
    import os, builtins
    real_open = builtins.open
    def opn(p, *a, **k):
        if I.concrete and not p.endswith('.hy'): return real_open(p, *a, **k)
        I.event('open', p)
        class File:
            def read(self): return 'text'
            def close(self): pass
            def __enter__(self): return self
            def __exit__(self, *a): return False
        return File()
    if I.concrete:
        real = os.path.exists
        ex = lambda p: there.get(p, False) if p.endswith('.hy') else real(p)
        I.patch(os.path, 'exists', ex); I.patch(os.path, 'isfile', ex); I.patch(builtins, 'open', opn); I.patch(os, 'getcwd', lambda: '/cwd')
        I.patch(m.importlib, 'import_module', imp)
    else:
        ex = I.stub(lambda p: there.get(p, False))
        I.patch(m, 'os', Lib(os, dict(path=Lib(os.path, dict(exists=ex, isfile=ex)), getcwd=I.stub(lambda: '/cwd'))))
        I.patch(m, 'importlib', Lib(m.importlib, dict(import_module=I.stub(imp))))
        I.contract(open, opn)
    made = module(I, 'made')
    rt = module(I, 'rt', translate=I.stub(lambda s, l=None, p=None, *a, **k: (I.event('translate', s, l, p), made)[1]))
    res = None if resolve == 'no' else I.stub(lambda p, r: resolved if resolve == 'file' else None)
    ld = I.new(m.HyLoader, cache=I.dict({}), resolve=res)
    ref = module(I, 'ref', filename='/ref/main.hy' if byref else None, package=package)
    found = [(p, k) for p, k in order if there[p]]
    for _ in range(2):
        o = I.call(I.getattr(ld, 'load'), path, ref, rt)
        I.check('no_exception', not o.raised)
        if not found: I.check('missing', o.value is None and I.same(I.trace(), I.nil)); return
        loc, pk = found[0]
        I.check('first_existing', o.value is made and I.same(I.trace(), I.push(I.nil, I.ev('open', loc), I.ev('translate', 'text', loc, pk))))
        I.check('location', I.and_(I.same(getattr(made, 'location', None), loc), I.same(getattr(made, 'package', None), pk)))

# ------------------------------------------------------------------------------------------------------------ runtime

@contract(['C15', 'C17'], 'core.runtime.Runtime.import_module')
def import_module(I):
    "the first loader that finds the path, for any number of loaders; an error if none does"
    m = R()
    n = I.int('n', lo=0)
    path = I.str('path')
    I.assume(I.length(path) > 0)
    ref, node = module(I, 'ref'), place(I, Ref, 'node')
    rt = I.new(m.Runtime)
    def mk(i):
        def load(p, r, rt_):
            I.event('load', i, p, r is ref, rt_ is rt)
            if I.f('load_raises', 'bool', i): I.raise_('load', i)
            if I.f('found', 'bool', i): return I.elem('m', i, bare(I, m.Module, index=i))
            return None
        return I.elem('loader', i, bare(I, m.Loader, load=I.stub(load)))
    loaders = I.seq('loader', mk, n)
    I.setattr(rt, 'loaders', loaders)
    tr = I.rec('tr', 'val', I.nil, lambda k, t: I.push(t, I.ev('load', k, path, True, True)))
    none = I.rec('none', 'bool', True, lambda k, g: I.and_(g, I.not_(I.f('found', 'bool', k)), I.not_(I.f('load_raises', 'bool', k))))
    o = I.call(I.getattr(rt, 'import_module'), path, ref, node)
    k = I.nevents()
    I.check('in_order', I.same(I.trace(), tr(k)))
    if is_stub_error(I, o.exc, 'load'): I.check('error_of_the_loader', I.and_(I.eq(o.exc.index, k - 1), none(k - 1))); return
    if o.raised:
        I.check('not_found', I.and_(o.is_exc(errors().ModuleNotFoundEx), I.eq(k, n), none(n)))
        located(I, o, node)
        return
    I.check('first_found', I.and_(I.eq(o.value.index, k - 1), none(k - 1), I.f('found', 'bool', k - 1)))

# ------------------------------------------------------------------------------------------------------------ import and context nodes

def scope(I, depth=0):
    "the scope of the analysis: records the symbols pushed"
    from hypertag.core.structs import Context
    return I.new(Context, 'ctx', regular_depth=depth, push=I.stub(lambda s, slot: I.event('push', s, slot)), get=I.stub(lambda s, d=None: None),
                 pushall=I.stub(lambda d: I.fail('pushall')), pushnew=I.stub(lambda d: I.fail('pushnew')))
def const(I, v): return I.new(node_base(), None, value=v)

def imported(I, name, kind):
    "a symbol of a module, and its value"
    m = ast()
    if kind == 'hypertag':
        r = I.new(Ref, name + '_result')
        return I.new(m.Hypertag, name, result=r, expand=I.stub(lambda *a: (I.event('expand', *a), r)[1]))
    return I.val(name) if kind == 'value' else I.new(Ref, name)

def bound(I, slot, symbol):
    "a slot of that name"
    return I.and_(I.eq(I.getattr(slot, 'symbol'), symbol), I.eq(I.getattr(slot, 'name'), symbol[1:]))

def is_value(I, v, kind, value, st):
    "v is the value of the symbol; a hypertag expands in the state of its module, whatever the state of the importing script"
    if kind != 'hypertag': return I.same(v, value) if kind == 'value' else v is value
    if not isinstance(v, ast().Hypertag) or v is value: return False
    body, attrs, kw, here, caller = [I.new(Ref, x) for x in ('body', 'attrs', 'kwattrs', 'here', 'caller')]
    o = I.call(I.getattr(v, 'expand'), body, attrs, kw, here, caller)
    return (not o.raised) and o.value is I.getattr(value, 'result') and I.same(I.trace(), I.push(I.nil, I.ev('expand', body, attrs, kw, st, caller)))

@contract(['C15', 'C17'], 'NODES.xname_import.analyse', 'NODES.xname_import.translate', 'NODES.xcntx_import.analyse', 'NODES.xcntx_import.translate', 'NODES._import._import', 'core.structs.Slot.__init__', 'core.structs.ValueSlot.__init__', 'core.structs.Slot.set')
def named_import(I):
    "the requested symbol and no other, under its new name and the same mark; an error at the import if it is missing"
    N, m = nodes(), R()
    frm = I.choice('from', ['module', 'context'])
    mark = I.choice('mark', ['$', '%'])
    a, b, other = I.str('symbol'), I.str('rename'), I.str('other')
    I.assume(I.and_(I.length(a) > 0, I.length(b) > 0))
    symbol, other = mark + a, mark + other
    I.assume(I.not_(I.eq(symbol, other)))
    renamed, present = I.fork('renamed'), I.fork('present')
    kind = 'value' if mark == '$' else I.choice('kind', ['tag', 'hypertag']) if frm == 'module' else 'tag'
    value = imported(I, 'value', kind)
    ov = I.val('other_value')
    d = I.dict({})
    if I.fork('first'): I.setitem(d, other, ov)
    if present: I.setitem(d, symbol, value)
    st = I.run(State())
    path = I.str('path')
    I.assume(I.length(path) > 0)
    mod, main = I.new(m.HyModule, 'mod', symbols=d, state=st), I.new(m.HyModule, 'main')
    def find(p, ref, node):
        I.event('import', p, ref, node)
        if I.f('import_raises', 'bool'): I.raise_('import')
        return mod
    rt = I.new(m.Runtime, 'rt', import_module=I.stub(find))
    tree = I.new(ast().HypertagAST, 'tree', runtime=rt, module=main, context=d, filename=None)
    ctx = scope(I, I.int('depth', lo=0))
    nd = place(I, N.xname_import if frm == 'module' else N.xcntx_import, 'node', tree=tree, path=path if frm == 'module' else None,
               children=I.list([const(I, symbol)] + ([const(I, b)] if renamed else [])))
    o = I.call(I.getattr(nd, 'analyse'), ctx)
    tr = I.push(I.nil, I.ev('import', path, main, nd)) if frm == 'module' else I.nil
    if frm == 'module' and I.f('import_raises', 'bool'): I.check('error_of_the_import', is_stub_error(I, o.exc, 'import') and I.same(I.trace(), tr)); return
    if not present:
        I.check('error_if_missing', o.raised and o.is_exc(errors().ImportErrorEx))
        located(I, o, nd)
        I.check('nothing_declared', I.same(I.trace(), tr)); return
    I.check('no_exception', not o.raised)
    name = mark + b if renamed else symbol
    slot = I.getattr(nd, 'slot')
    I.check('declared_once', I.same(I.trace(), I.push(tr, I.ev('push', name, slot))))
    I.check('slot', bound(I, slot, name))
    I.clear_trace()
    state = I.run(State())
    I.run(I.getattr(nd, 'translate'), state)
    I.check('value', is_value(I, I.item(state, slot), kind, value, st))
    I.check('only_that_one', I.eq(I.length(I.getattr(state, 'values')), 1))

@contract('C15', 'NODES.xwild_import.analyse', 'NODES.xwild_import.translate', bounded='modules of up to 8 symbols')
def wild_import(I):
    "all symbols of the module that do not start with an underscore, and no others, each with its value"
    N, m = nodes(), R()
    names = ['$a', '%a', '$_b', '%_b', '%h', '$h_', '%_h', '$__c__']
    sel = I.choice('symbols', [[], [0], [2], [1, 3], [0, 1, 2, 4], [4, 5, 6], [7, 3, 2], list(range(8)), list(range(7, -1, -1))])
    names = [names[k] for k in sel]
    kinds = {x: 'hypertag' if x in ('%h', '%_h') else 'tag' if x[0] == '%' else 'value' for x in names}
    values = {x: imported(I, 'value_' + x[1:] + ('_t' if x[0] == '%' else '_v'), kinds[x]) for x in names}
    st = I.run(State())
    path = I.str('path')
    mod, main = I.new(m.HyModule, 'mod', symbols=I.dict(values), state=st), I.new(m.HyModule, 'main')
    def find(p, ref, node):
        I.event('import', p, ref, node)
        if I.f('import_raises', 'bool'): I.raise_('import')
        return mod
    rt = I.new(m.Runtime, 'rt', import_module=I.stub(find))
    tree = I.new(ast().HypertagAST, 'tree', runtime=rt, module=main, context=I.dict({}), filename=None)
    from hypertag.core.structs import Context
    pushed = []
    ctx = I.new(Context, 'ctx', regular_depth=I.int('depth', lo=0), push=I.stub(lambda s, slot: pushed.append((s, slot))), get=I.stub(lambda s, d=None: None))
    nd = place(I, N.xwild_import, 'node', tree=tree, path=path, children=I.list([]))
    o = I.call(I.getattr(nd, 'analyse'), ctx)
    I.check('module', I.same(I.trace(), I.push(I.nil, I.ev('import', path, main, nd))))
    if I.f('import_raises', 'bool'): I.check('error_of_the_import', is_stub_error(I, o.exc, 'import') and not pushed); return
    I.check('no_exception', not o.raised)
    public = [x for x in names if x[1] != '_']
    I.check('public_symbols_once', sorted(s for s, _ in pushed) == sorted(public))
    for s, slot in pushed: I.check('slot', bound(I, slot, s))
    state = I.run(State())
    I.run(I.getattr(nd, 'translate'), state)
    for s, slot in pushed:
        I.clear_trace()
        I.check('value', is_value(I, I.item(state, slot), kinds[s], values[s], st))
    I.check('only_those', I.eq(I.length(I.getattr(state, 'values')), len(public)))

@contract(['C15', 'C17'], 'NODES.xblock_import.analyse', 'NODES.xblock_import.translate', 'NODES.xblock_import.setup', 'NODES.xblock_context.analyse', 'NODES.node.analyse')
def import_block(I):
    "every item of the block, in order, from the path of the block; imports stand outside control blocks, context blocks at the beginning"
    N = nodes()
    kind = I.choice('kind', ['import', 'context'])
    n = I.int('n', lo=1)
    def mk(i):
        def analyse(c):
            I.event('analyse', i, c)
            if I.f('analyse_raises', 'bool', i): I.raise_('analyse', i)
        def translate(s):
            I.event('translate', i, s)
            if I.f('translate_raises', 'bool', i): I.raise_('translate', i)
        return I.elem('item', i, bare(I, N.xname_import if kind == 'import' else N.xcntx_import, type='name_import', analyse=I.stub(analyse), translate=I.stub(translate), path=None))
    items = I.seq('item', mk, n)
    from hypertag.core.structs import Context
    cd, prolog = I.int('control_depth', lo=0), I.fork('in_prolog')
    ctx = I.new(Context, 'ctx', control_depth=cd, in_prolog=prolog)
    nd = place(I, N.xblock_import if kind == 'import' else N.xblock_context, 'node', type='block_' + kind, children=items, items=items)
    tr = I.rec('tr', 'val', I.nil, lambda k, t: I.push(t, I.ev('analyse', k, ctx)))
    state = I.run(State())
    tt = I.rec('tt', 'val', I.nil, lambda k, t: I.push(t, I.ev('translate', k, state)))
    o = I.call(I.getattr(nd, 'analyse'), ctx)
    k = I.nevents()
    I.check('items_in_order', I.same(I.trace(), tr(k)))
    misplaced = I.truth(cd >= 1) if kind == 'import' else not prolog
    if misplaced:
        I.check('misplaced', o.raised and o.is_exc(errors().SyntaxErrorEx) and I.eq(k, 0))
        located(I, o, nd); return
    if is_stub_error(I, o.exc, 'analyse'): I.check('error_of_the_item', I.eq(o.exc.index, k - 1)); return
    I.check('all_items', I.and_(not o.raised, I.eq(k, n)))
    I.clear_trace()
    o = I.call(I.getattr(nd, 'translate'), state)
    k = I.nevents()
    I.check('translated_in_order', I.same(I.trace(), tt(k)))
    if is_stub_error(I, o.exc, 'translate'): I.check('translation_error', I.eq(o.exc.index, k - 1)); return
    I.check('all_translated_no_output', I.and_(not o.raised, I.eq(k, n)))
    if not o.raised: I.check('no_output', isinstance(o.value, domm().DOM) and I.eq(I.length(o.value), 0))

@contract(['C15', 'C18'], 'HypertagAST.make_context', bounded='up to 2 tags and 3 variables')
def context_of_the_caller(I):
    "every tag and variable of the caller under its name and mark; the caller's dicts stay as they were"
    A = ast().HypertagAST
    tk = I.choice('tags', [None, [], ['a'], ['%a', 'b']])
    vk = I.choice('variables', [None, [], ['a'], ['a', 'b', '$c'], ['__x__', 'x']])
    tv = {x: I.val('t' + str(i)) for i, x in enumerate(tk or [])}
    vv = {x: I.val('v' + str(i)) for i, x in enumerate(vk or [])}
    td, vd = None if tk is None else I.dict(tv), None if vk is None else I.dict(vv)
    o = I.call(A.make_context, td, vd)
    I.check('no_exception', not o.raised)
    want = {x if x[0] == '%' else '%' + x: v for x, v in tv.items()}
    want.update({x if x[0] == '$' else '$' + x: v for x, v in vv.items()})
    I.check('number', I.eq(I.length(o.value), len(want)))
    for x, v in want.items(): I.check('symbol', I.and_(I.contains(o.value, x), I.same(I.item(o.value, x), v) if I.truth(I.contains(o.value, x)) else False))
    for d, w in ((td, tv), (vd, vv)):
        if d is None: continue
        I.check('unchanged', I.eq(I.length(d), len(w)))
        for x, v in w.items(): I.check('unchanged_item', I.same(I.item(d, x), v))

@contract('C15', 'core.runtime.PyModule.__init__', bounded='modules of up to 3 variables and 3 tags')
def python_symbols(I):
    "all names of a Python module are variables; the entries of __tags__ are tags; a tag under a wrong name is an error"
    import types
    m = R()
    vk = I.choice('variables', [[], ['a'], ['a', '_b', 'c']])
    tk = I.choice('tags', [None, [], ['t'], ['t', 'u', 'v']])
    wrong = I.fork('wrong') if tk else False
    mod = types.ModuleType('pkg.mod')
    mod.__file__, mod.__package__ = '/pkg/mod.py', 'pkg'
    values = {x: I.val(x) for x in vk}
    for x, v in values.items(): setattr(mod, x, v)
    tags = {x: I.new(Ref, x, name=x if not (wrong and x == tk[-1]) else 'wrong') for x in tk or []}
    if tk is not None: mod.__tags__ = tags
    o = I.call(m.PyModule, mod)
    if wrong: I.check('wrong_name', o.raised and o.is_exc(errors().ImportErrorEx)); return
    I.check('no_exception', not o.raised)
    r = o.value
    I.check('identity', I.and_(I.same(I.getattr(r, 'location'), 'pkg.mod'), I.same(I.getattr(r, 'filename'), '/pkg/mod.py'), I.same(I.getattr(r, 'package'), 'pkg')))
    syms = I.getattr(r, 'symbols')
    for x, v in values.items(): I.check('variable', I.same(I.item(syms, '$' + x), v))
    for x, t in tags.items(): I.check('tag', I.item(syms, '%' + x) is t)
    I.check('no_other_public_symbol', sorted(x for x in list(syms) if x[1] != '_') == sorted(['$' + x for x in vk if x[0] != '_'] + ['%' + x for x in tags]))
