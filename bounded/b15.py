"C15: imports and context blocks."
from .common import *
import tempfile, shutil, importlib

# ------------------------------------------------------------------------------------------------- path arithmetic
def o_join(base, path, sep, ext):
    if base is None: return None
    n = len(path) - len(path.lstrip('.'))
    parts = base.split(sep)
    if parts[-1] == '' and base: parts.pop()
    if n - 1 >= len(parts): raise LookupError()
    parts = parts[:len(parts) - (n - 1)]
    return sep.join(parts + path[n:].split('.')) + (ext or '')

@suite('C15', 'join_path', 1)
def gen_join(r, size):
    sep = r.choice(['/', '/', '.', '\\'])
    names = ['a', 'b_c', 'ż', 'x1', 'dir', 'pkg', 'a b', 'zq-1'] + (['v1.2', '.hid'] if sep != '.' else [])
    base = sep.join(r.choice(names) for _ in range(r.randint(1, 4)))
    if sep == '/' and r.random() < .7: base = '/' + base
    if r.random() < .25: base += sep
    path = '.' * r.choice([1, 1, 2, 2, 3, 4, 5, 6]) + '.'.join(r.choice(['m', 'sub', 'mod', 'ó', 'k9']) for _ in range(r.randint(1, 3)))
    return dict(base=None if r.random() < .05 else base, path=path, sep=sep, ext=r.choice([None, '.hy', '.hy', '.x']))
def check_join(c):
    from hypertag.core.runtime import join_path
    try: want = o_join(c['base'], c['path'], c['sep'], c['ext'])
    except LookupError: want = LookupError
    args = [c['base'], c['path'], c['sep']] + ([c['ext']] if c['ext'] else [])
    r = observe(lambda: join_path(*args))
    if want is LookupError: return None if 'ImportError' in r.get('error', ()) else 'path above the top: %r' % r
    if r.get('out', r) != want: return 'join_path%r = %r, expected %r' % (tuple(args), r, want)
SUITES['C15'][0] = SUITES['C15'][0][:3] + (check_join,)

# ------------------------------------------------------------------------------------------------- trees of scripts
FOLDERS = [(), ('zq_a',), ('zq_b',), ('zq_a', 'zq_c'), ('zq_a', 'zq_c', 'zq_d'), ('zq_b', 'zq_a'), ('zq_b', 'zq_e')]
def relpath(r, folder, target, name, top=0):
    k = 0
    while k < len(folder) and k < len(target) and folder[k] == target[k]: k += 1
    if r.random() < .2: k = r.randint(min(top, k), k)              # further up than necessary
    return '.' * (len(folder) - k + 1) + '.'.join(target[k:] + (name,))

class Mod:
    def __init__(self, folder, name): self.folder, self.name, self.lines, self.symbols = folder, name, [], {}
    @property
    def file(self): return '/'.join(self.folder + (self.name + '.hy',))

def binding(r, mod, path, src, taken):
    "an import line of symbols of `src` -> (line, {symbol: value})"
    syms = sorted(src.symbols)
    if r.random() < .25: return 'from %s import *' % path, {s: src.symbols[s] for s in syms if s[1] != '_'}
    items, new = [], {}
    for s in r.sample(syms, r.randint(1, min(3, len(syms)))):
        if r.random() < .4:
            n = 'r%d' % r.randint(0, 9)
            items.append('%s as %s' % (s, n)); new[s[0] + n] = src.symbols[s]
        else:
            items.append(s); new[s] = src.symbols[s]
    if r.random() < .12:
        items.insert(r.randint(0, len(items)), '*')
        if all(s[1:] not in [n[1:] for n in new] or new.get(s) == src.symbols[s] for s in syms): new.update({s: src.symbols[s] for s in syms if s[1] != '_'})
        else: items.remove('*')
    return 'from %s import %s' % (path, r.choice([', ', ',', ' , ']).join(items)) + r.choice(['', '', '', '  -- c', ' #', ' --']), new

def use(r, mod, out, k):
    "lines which show symbols of `mod`, appended with their expected output"
    syms = sorted(mod.symbols)
    for s in r.sample(syms, min(k, len(syms))):
        if s[0] == '$': mod.lines.append('| %s=$%s' % (s[1:], s[1:])); out.append('%s=%s' % (s[1:], mod.symbols[s]))
        else:
            a = word(r)
            mod.lines.append('%s "%s"' % (s[1:], a)); out.append(mod.symbols[s] % a)

def tree(r, size):
    mods = []
    n = r.randint(1, 2 + size)
    names = ['zq_m', 'zq_n', 'zq_k', 'main2', 'zq_a']
    used = set()
    cwd = r.choice(FOLDERS)
    for i in range(n + 1):
        last = i == n
        folder = r.choice(FOLDERS)
        m = Mod(folder, 'main' if last else r.choice(names))
        if m.file in used: continue
        used.add(m.file)
        out = []
        for src in r.sample(mods, min(len(mods), r.choice([0, 1, 1, 2]) + (1 if last else 0))):
            if r.random() < .7: path = relpath(r, folder, src.folder, src.name)
            else:
                "absolute: the current folder first, then the folder of the importing script"
                roots = [x for x in (cwd, folder) if src.folder[:len(x)] == x]
                if not roots: path = relpath(r, folder, src.folder, src.name)
                else:
                    root = r.choice(roots)
                    rest = src.folder[len(root):] + (src.name,)
                    found = cwd + rest
                    if found != src.folder + (src.name,) and any(x.folder + (x.name,) == found for x in mods): src = [x for x in mods if x.folder + (x.name,) == found][0]
                    path = '.'.join(rest); used.add('/'.join(found) + '.hy')       # must not appear later
            line, new = binding(r, m, path, src, None)
            m.lines.append(line); m.symbols.update(new)
            if r.random() < .3: m.lines.append(r.choice(['', '-- comment', '']))
        uid = '%s_%d' % (m.name, i)
        for j in range(r.randint(1, 2)):
            k = r.choice(['v', 'w', '_p', 'v%d' % i, 'u_', 'U', '__d'])
            m.lines.append('$ %s = "%s.%d"' % (k, uid, j)); m.symbols['$' + k] = '%s.%d' % (uid, j)
        if r.random() < .7:
            h = r.choice(['H', 'K', '_T', 'H%d' % i, 'K_', 'k'])
            k = r.choice([s for s in m.symbols if s[0] == '$'])[1:]
            m.lines.append('%% %s x' % h); m.lines.append('    | [%s:$x:$%s]' % (h, k))
            m.symbols['%' + h] = '[%s:%%s:%s]' % (h, m.symbols['$' + k])
            if r.random() < .4 and ('$ %s =' % k) in '\n'.join(m.lines): m.lines.append('$ %s = "%s.late"' % (k, uid)); m.symbols['$' + k] = uid + '.late'; m.symbols['%' + h] = '[%s:%%s:%s.late]' % (h, uid)
        if last: use(r, m, out, 4)
        mods.append(m)
    return mods, cwd, out

@suite('C15', 'script trees', 1)
def gen_tree(r, size):
    mods, cwd, out = tree(r, size)
    main = mods[-1]
    if main.name != 'main': raise Skip()
    case = dict(files={m.file: '\n'.join(m.lines) + '\n' for m in mods}, cwd='/'.join(cwd), main=main.file, expect=dict(out='\n'.join(out)))
    q = r.random()
    if q < .08:
        s = r.choice(['$zq_none', '%zq_none', '$_no'])
        if len(mods) > 1:
            src = r.choice(mods[:-1])
            case['files'][main.file] = 'from %s import %s\n' % (relpath(r, main.folder, src.folder, src.name), s) + case['files'][main.file]
            case['expect'] = dict(error='ImportError')
    elif q < .16:
        path = r.choice(['.zq_missing', 'zq_missing', 'zq_missing.x', '..zq_missing', '.zq_a.zq_missing', '.' * 30 + 'zq_m'])
        case['files'][main.file] = 'from %s import %s\n' % (path, r.choice(['*', '$v', '%H'])) + case['files'][main.file]
        case['expect'] = dict(error='ImportError')
    return case
def in_tree(case, fn):
    cwd0 = os.getcwd()
    d = os.path.realpath(tempfile.mkdtemp(prefix='hyc15'))
    try:
        for f in case.get('folders', ['/'.join(x) for x in FOLDERS]): os.makedirs(os.path.join(d, f), exist_ok=True)
        for f, s in case['files'].items():
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            with open(os.path.join(d, f), 'w') as o: o.write(s)
        os.chdir(os.path.join(d, case['cwd']))
        return fn(d)
    finally:
        os.chdir(cwd0)
        shutil.rmtree(d)
def unblank(r):
    "the layout of blank lines is not in question here"
    if 'out' in r: r['out'] = '\n'.join(l for l in r['out'].split('\n') if l.strip())
    return r
def show_files(case): return '\n'.join('--- %s\n%s' % x for x in case['files'].items())
def check_tree(case):
    def go(d):
        f = os.path.join(d, case['main'])
        script = case['files'][case['main']]
        return observe(lambda: runtime().render(script, __file__=f))
    r = unblank(in_tree(case, go)); r['trace'] = None
    m = compare(case, r)
    return m and '%s\n(cwd %s)\n%s' % (m, case['cwd'], show_files(case))
SUITES['C15'][1] = SUITES['C15'][1][:3] + (check_tree,)

# ------------------------------------------------------------------------------------------------- identity of modules
@suite('C15', 'identity', .4)
def gen_ident(r, size):
    "one script imported along several chains of relative imports is one module; its top-level code runs once per runtime"
    target = r.choice(FOLDERS)
    files = {'/'.join(target + ('zq_t.hy',)): '$ o = [1]\n% T\n    | t\n'}
    chains = []
    main = r.choice(FOLDERS)
    lines = []
    for i in range(r.randint(2, 4)):
        via = [r.choice(FOLDERS) for _ in range(r.choice([0, 1, 1, 2]))]
        nxt, sym = (target, 'zq_t'), 'o'
        for j, f in enumerate(via):
            name = 'zq_v%d_%d' % (i, j)
            files['/'.join(f + (name + '.hy',))] = 'from %s import $o\n' % relpath(r, f, *nxt)
            nxt = (f, name)
        lines.append('from %s import $o as o%d' % (relpath(r, main, *nxt), i)); chains.append('o%d' % i)
    lines.append('| $len(o0) {' + ' and '.join('%s is %s' % (chains[0], c) for c in chains[1:]) + '}')
    return dict(files=dict(files, **{'/'.join(main + ('main.hy',)): '\n'.join(lines)}), cwd='/'.join(r.choice(FOLDERS)), main='/'.join(main + ('main.hy',)), expect=dict(out='1 True'), again=r.random() < .5)
def check_ident(case):
    def go(d):
        f = os.path.join(d, case['main']); s = case['files'][case['main']]
        rt = runtime()
        a = observe(lambda: rt.translate(s, __file__=f))
        if 'error' in a: return a, None
        b = rt.translate(s, __file__=f)
        return dict(out=a['out'].dom.render()), a['out'].symbols['$o0'] is b.symbols['$o0']
    a, same = in_tree(case, go)
    unblank(a)['trace'] = None
    m = compare(case, a)
    if not m and not same: m = 'the second rendering in the same runtime has imported another module'
    return m and '%s\n%s' % (m, show_files(case))
SUITES['C15'][2] = SUITES['C15'][2][:3] + (check_ident,)

# ------------------------------------------------------------------------------------------------- Python packages
@suite('C15', 'packages', .6)
def gen_pkg(r, size):
    "a Python package with modules, tags and scripts, imported by absolute and relative paths; the package of a script is given or inferred"
    pkgs = [('zqp',), ('zqp', 'zq_s'), ('zqp', 'zq_s', 'zq_u'), ('zqp', 'zq_r')]
    given = r.choice(['package', 'package', 'both', 'file'])
    files = {'/'.join(p + ('__init__.py',)): 'zq_init = "init %s"\n' % '.'.join(p) for p in pkgs}
    mods = {}
    for i in range(r.randint(1, 3)):
        p = r.choice(pkgs); n = 'zq_y%d' % i
        syms = {'$x': 'x%d' % i, '$_h': 'h%d' % i, '$f': 'f%d' % i}
        src = 'x = "x%d"\n_h = "h%d"\nf = "f%d"\n' % (i, i, i)
        if r.random() < .6:
            src += 'from hypertag import Tag\nclass T(Tag):\n    name = "tg"\n    def expand(self, body, attrs, kwattrs): return "<%d:" + attrs[0] + ">"\n__tags__ = {%r: T()}\n' % (i, 'tg')
            syms['%tg'] = '<%d:%%s>' % i
        files['/'.join(p + (n + '.py',))] = src
        mods[p + (n,)] = syms
    for i in range(r.randint(0, 2)):
        p = r.choice(pkgs); n = 'zq_h%d' % i
        m = Mod(p, n)
        m.lines.append('$ v = "v%d"' % i); m.symbols['$v'] = 'v%d' % i
        for (t, s) in r.sample(sorted(mods.items()), 1):
            path = '.'.join(t) if r.random() < .4 or given == 'file' else relpath(r, p, t[:-1], t[-1], 1)
            sym = r.choice(sorted(s)); m.lines.append('from %s import %s as z' % (path, sym)); m.symbols[sym[0] + 'z'] = s[sym]
        files[m.file] = '\n'.join(m.lines) + '\n'
        mods[p + (n,)] = m.symbols
    p = r.choice(pkgs)
    main = Mod(p, 'main'); out = []
    for (t, s) in r.sample(sorted(mods.items()), min(len(mods), r.randint(1, 3))):
        script = t[-1].startswith('zq_h')
        rel = r.random() < .6
        if script and given == 'package': rel = False                      # scripts are located relative to a file
        if not script and given == 'file': rel = False                     # and modules relative to a package
        src = Mod(t[:-1], t[-1]); src.symbols = s
        line, new = binding(r, main, relpath(r, p, t[:-1], t[-1], 1) if rel else '.'.join(t), src, None)
        if line.endswith('*'):
            new = {k: v for k, v in new.items()}
        main.lines.append(line); main.symbols.update(new)
    use(r, main, out, 4)
    case = dict(files=files, cwd='', folders=[''], main='/'.join(p + ('main.hy',)), package='.'.join(p), given=given, expect=dict(out='\n'.join(out)))
    case['files'][case['main']] = '\n'.join(main.lines)
    q = r.random()
    if q < .1:
        t, s = r.choice(sorted(mods.items()))
        case['files'][case['main']] = 'from %s import %s\n' % ('.'.join(t), r.choice(['$zq_none', '%zq_none', '%x'])) + case['files'][case['main']]; case['expect'] = dict(error='ImportError')
    elif q < .2:
        case['files'][case['main']] = 'from %s import %s\n' % (r.choice(['zqp.zq_none', 'zqp.zq_none.x', 'zq_none', '.zq_none', '......zq_none']), r.choice(['*', '$x'])) + case['files'][case['main']]; case['expect'] = dict(error='ImportError')
    return case
def check_pkg(case):
    def go(d):
        f = os.path.join(d, case['main']); s = case['files'][case['main']]
        kw = {}
        if case['given'] in ('file', 'both'): kw['__file__'] = f
        if case['given'] in ('package', 'both'): kw['__package__'] = case['package']
        def clean():
            for k in [k for k in sys.modules if k.split('.')[0] == 'zqp']: del sys.modules[k]
            importlib.invalidate_caches()
        clean(); sys.path.insert(0, d); wb = sys.dont_write_bytecode; sys.dont_write_bytecode = True
        try: return observe(lambda: runtime().render(s, **kw))
        finally: sys.path.remove(d); sys.dont_write_bytecode = wb; clean()
    r = unblank(in_tree(case, go)); r['trace'] = None
    m = compare(case, r)
    return m and '%s\n%s' % (m, show_files(case))
SUITES['C15'][3] = SUITES['C15'][3][:3] + (check_pkg,)

# ------------------------------------------------------------------------------------------------- context blocks
@suite('C15', 'context', .6)
def gen_context(r, size):
    vs = {n: r.choice([word(r), r.randint(0, 99), False, 0, ""]) for n in r.sample(['a', 'b', 'c1', 'd_e', 'H', 'p'], r.randint(0, 5))}
    ts = r.sample(['t1', 'a', 'b', 'H', 'p', 'u_v'], r.randint(0, 4))
    marked = {n: ('$' if n in vs else '') + n for n in vs}                       # names may be given with their mark
    have = dict({'$' + n: v for n, v in vs.items()}, **{'%' + n: n for n in ts})
    items, bound = [], {}
    error = None
    lines = []
    for b in range(r.choice([1, 1, 1, 2, 3])):
        items = []
        for s in r.sample(sorted(have), min(len(have), r.randint(1, 3))):
            n = s[1:]
            if r.random() < .4: n = r.choice(['n1', 'n2', 'a', 'p', 'q9', 'H'])
            items.append(s + (r.choice([' as ', '  as  ']) + n if n != s[1:] else '')); bound[s[0] + n] = have[s]
        if r.random() < .06:
            s = r.choice(['$zz', '%zz', '$t1', '%c1'])
            if s not in have: items.insert(r.randint(0, len(items)), s); error = 'ImportError'
        if items: lines.append('context ' + r.choice([', ', ',']).join(items) + r.choice(['', '', '   -- c']))
        if r.random() < .2: lines.append(r.choice(['', '-- comment', '# x']))
    if not lines: raise Skip()
    out = []
    def shown(s, ind=''):
        v = bound[s]
        if s[0] == '$': return ind + '| %s=$%s' % (s[1:], s[1:]), ind + '%s=%s' % (s[1:], '' if v is None else v)
        return ind + '%s | b' % s[1:], ind + '[b|["list"]|["dict"]]'
    lead = True
    for s in r.sample(sorted(bound), min(len(bound), 4)):
        l, o = shown(s)
        lines.append(l); out.append(o)
    # names that are in the context, but not requested, are not bound
    if r.random() < .15 and not error:
        free = [n for n in vs if '$' + n not in bound]
        if free: lines.append('| $%s' % r.choice(free)); error = '*'
    return dict(script='\n'.join(lines), vars=vs, tags={n: 'attrs' for n in ts}, helpers=False, expect=dict(error=error) if error else dict(out='\n'.join(out)), blank_before=lead, marks=r.random() < .3)
def check_context(case):
    c = dict(case)
    if case['marks']: c['vars'] = {'$' + k: v for k, v in case['vars'].items()}
    c['tags'] = c['tags'] or {}
    r = render(c)
    unblank(r)
    m = compare(dict(expect=case['expect']), r)
    return m and '%s\n%s' % (m, c)
SUITES['C15'][4] = SUITES['C15'][4][:3] + (check_context,)

# ------------------------------------------------------------------------------------------------- values of any kind
@suite('C15', 'values', .3)
def gen_values(r, size):
    "symbols of any value, falsy ones and None included, are imported and requested like any other"
    kind = r.choice(['script', 'module', 'context'])
    names = r.sample(['va', 'vb', 'vc', 'vd', 've'], r.randint(1, 4))
    vals = {n: r.choice(['None', '0', '""', 'False', '[]', '{}', '0.0', '()', '1', '"x"', 'True']) for n in names}
    lines, shown, out = [], [], []
    for n in names:
        new = r.choice([n, n, 'w' + n])
        item = '$%s%s' % (n, ' as ' + new if new != n else '')
        lines.append(('context ' if kind == 'context' else 'from .zq_vals import ') + item)
        shown.append('| {%s is None} {%s == %s}' % (new, new, vals[n])); out.append('%s True' % (vals[n] == 'None'))
    if kind != 'context' and r.random() < .3: lines = ['from .zq_vals import *']; shown = ['| {%s is None} {%s == %s}' % (n, n, vals[n]) for n in names]
    return dict(kind=kind, vals=vals, script='\n'.join(lines + shown), expect=dict(out='\n'.join(out)))
def check_values(case):
    d = os.path.realpath(tempfile.mkdtemp(prefix='hyc15'))
    try:
        main = os.path.join(d, 'zq_pk', 'main.hy'); os.makedirs(os.path.dirname(main))
        if case['kind'] == 'context': go = lambda: runtime().render(case['script'], **{n: eval(v) for n, v in case['vals'].items()})
        elif case['kind'] == 'script':
            with open(os.path.join(d, 'zq_pk', 'zq_vals.hy'), 'w') as o: o.write('\n'.join('$ %s = %s' % x for x in case['vals'].items()))
            go = lambda: runtime().render(case['script'], __file__=main)
        else:
            for n in ('__init__', 'zq_vals'):
                with open(os.path.join(d, 'zq_pk', n + '.py'), 'w') as o: o.write('\n'.join('%s = %s' % x for x in case['vals'].items()) if n == 'zq_vals' else '')
            def go():
                def clean():
                    for k in [k for k in sys.modules if k.split('.')[0] == 'zq_pk']: del sys.modules[k]
                    importlib.invalidate_caches()
                clean(); sys.path.insert(0, d); wb = sys.dont_write_bytecode; sys.dont_write_bytecode = True
                try: return runtime().render(case['script'], __package__='zq_pk')
                finally: sys.path.remove(d); sys.dont_write_bytecode = wb; clean()
        r = unblank(observe(go)); r['trace'] = None
    finally: shutil.rmtree(d)
    m = compare(case, r)
    return m and '%s\n%s' % (m, case)
SUITES['C15'][-1] = SUITES['C15'][-1][:3] + (check_values,)

# ------------------------------------------------------------------------------------------------- the order of lookup
@suite('C15', 'lookup', .4)
def gen_lookup(r, size):
    """an absolute path: the location given by resolve(), a script inside a Python package, a script under the current folder, a script
    under the importing script's folder; the first one that exists is the module, with the package it was found through"""
    places = ['resolve', 'package', 'cwd', 'referrer']
    n = r.randint(1, 3)
    files = {'lib/zqk/__init__.py': '', 'lib/zqk/zq_y.py': 'x = "package"\n', 'ref/main.hy': ''}
    lines, out, table, error = [], [], {}, None
    for i in range(n):
        dotted = r.random() < .7
        name = 'zq_l%d' % i; path = ('zqk.' if dotted else '') + name; sub = 'zqk/' if dotted else ''
        have = [p for p in places if r.random() < .45 and (dotted or p != 'package')]
        where = dict(resolve='res/%s_r.hy' % name, package='lib/%s%s.hy' % (sub, name), cwd='cwd/%s%s.hy' % (sub, name), referrer='ref/%s%s.hy' % (sub, name))
        uses = r.random() < .3 and dotted
        for p in have: files[where[p]] = '$ v = "%s%d"\n' % (p, i) + ('from .zq_y import $x\n' if uses else '$ x = 0\n')
        if 'resolve' in have: table[path] = where['resolve']
        elif r.random() < .3: table[path] = 'res/zq_missing.hy'
        for k in range(r.choice([1, 1, 2])):
            lines.append('from %s import $v as v%d_%d, $x as x%d' % (path, i, k, i))
            if have and (not uses or have[0] == 'package'):
                lines.append('| $v%d_%d$x%d' % (i, k, i)); out.append('%s%d%s' % (have[0], i, 'package' if uses else '0'))
            elif not error: error = 'ImportError'
    files['ref/main.hy'] = '\n'.join(lines)
    return dict(files=files, folders=['lib/zqk', 'cwd', 'ref', 'res'], cwd='cwd', main='ref/main.hy', table=table, resolve=bool(table) or r.random() < .6, expect=dict(error=error) if error else dict(out='\n'.join(out)))
def check_lookup(case):
    from hypertag.core.runtime import HyLoader, PyLoader
    def go(d):
        f = os.path.join(d, case['main']); s = case['files'][case['main']]
        def resolve(path, referrer):
            t = case['table'].get(path)
            return t and os.path.join(d, t)
        def clean():
            for k in [k for k in sys.modules if k.split('.')[0] == 'zqk']: del sys.modules[k]
            importlib.invalidate_caches()
        lib = os.path.join(d, 'lib')
        clean(); sys.path.insert(0, lib); wb = sys.dont_write_bytecode; sys.dont_write_bytecode = True
        kw = dict(loaders=[HyLoader(resolve), PyLoader]) if case['resolve'] else {}
        try: return observe(lambda: runtime(**kw).render(s, __file__=f))
        finally: sys.path.remove(lib); sys.dont_write_bytecode = wb; clean()
    r = unblank(in_tree(case, go)); r['trace'] = None
    m = compare(case, r)
    return m and '%s\n(resolve: %s)\n%s' % (m, case['table'] if case['resolve'] else 'none', show_files(case))
SUITES['C15'][-1] = SUITES['C15'][-1][:3] + (check_lookup,)
