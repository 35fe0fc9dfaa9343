import re
from .expr import *
from .gen import *

VALUES = ['1', '0', "'a'", "''", "'x y'", 'None', 'True', 'False', '[1, 2]', '(3,)', "{'k': 1}", '2.5', 'i', 's', 'l', 'i + 1', "s + 'q'", 't("k1", 5)', "'<&>'", "len(s)"]
NAMES = ['a', 'b', 'cc', 'title', 'x1', 'Body', 'class_', 'None1']

def attr_src(r, v):
    k = r.random()
    if re.fullmatch(r"[a-z]\w*", v): return r.choice(['$' + v, v, '{%s}' % v, '(%s)' % v])
    if ' ' not in v and k < .5: return v
    return '{%s}' % v if v[0] != '{' else '(%s)' % v

@suite('C11', 'binding', 3)
def binding(r, size):
    "attributes of an occurrence against a Python function with the same parameters"
    names = r.sample(NAMES, r.choice([0, 1, 2, 2, 3, 4]))
    params = []; opt = False
    for n in names:
        opt = opt or r.random() < .4 if r.random() < .8 else r.random() < .5
        params.append([n, r.choice(VALUES) if opt else None])
    # in Hypertag a required attribute may follow an optional one
    npos = r.choice([0, 0, 1, 1, 2, len(names), len(names), len(names) + (r.random() < .3)])
    pos = [r.choice(VALUES) for _ in range(npos)]
    kw = []
    for n in names[npos:]:
        if r.random() < .75: kw.append([n, r.choice(VALUES)])
    if r.random() < .12: kw.append([r.choice(NAMES + ['zz']), r.choice(VALUES)])
    r.shuffle(kw)
    kw = [[n, v] for i, (n, v) in enumerate(kw) if n not in [k for k, _ in kw[:i]]]
    body = r.choice([None, None, 'body', 'content'])
    if body and r.random() < .05: kw.append([body, "'x'"])
    return dict(params=params, pos=pos, kw=kw, bodyname=body, form=r.choice(['tag', 'tag', 'function', 'nested', 'imported' if False else 'tag']), text=r.choice([None, 'text', 'a<b']) if body else r.choice([None, None, None, 'text']), rseed=r.randrange(10**6))
def check_binding(case):
    r = random.Random(case['rseed'])
    names = [n for n, _ in case['params']]; body = case['bodyname']
    lines = ['%H' + (' @' + body if body else '') + ''.join(' %s%s' % (n, '' if d is None else '=' + attr_src(r, d)) for n, d in case['params'])]
    lines.append('    $ log.append([%s])' % ', '.join(names))
    lines.append('    | done')
    if body: lines.append('    @ ' + body)
    pos, kw, text = case['pos'], case['kw'], case['text']
    if case['form'] == 'function':
        call = '%%H(%s)' % ', '.join([repr(text) if text else 'None'] + pos + ['%s=%s' % (n, v) for n, v in kw])
        lines += ['| {%s}' % call.replace("%H", "%H")]
    else:
        occ = 'H' + ''.join(' ' + attr_src(r, v) for v in pos) + ''.join(' %s=%s' % (n, attr_src(r, v)) for n, v in kw)
        if text: occ += ' | ' + text
        if case['form'] == 'nested': lines += ['div', '  ' + occ]
        else: lines.append(occ)
    log = []
    vars = {k: VARS[k] for k in ('i', 's', 'l')}
    h1, r1, _ = run_hyper('\n'.join(lines), vars, dict(log=log))
    # oracle
    env = dict(Rec().env(), **{k: decode(v) for k, v in vars.items()})
    def bind():
        if body and body in [n for n, _ in kw]: raise TypeError('body')
        vals = {}
        if len(pos) > len(names): raise TypeError('too many')
        for n, v in zip(names, pos): vals[n] = v
        for n, v in kw:
            if n not in names: raise TypeError('unexpected')
            if n in vals: raise TypeError('multiple')
            vals[n] = v
        for n, d in case['params']:
            if n not in vals:
                if d is None: raise TypeError('missing')
                vals[n] = d
        if text and not body: raise TypeError('void')
        return [eval(vals[n], env) for n in names]
    r2 = observe(bind)
    script = '\n'.join(lines)
    if ('error' in r1) != ('error' in r2): return 'Hypertag: %r, expected %r\n%s' % (r1, r2, script)
    if 'error' in r1:
        if 'TypeError' not in r1['error'] and 'VoidTagEx' not in r1['error']: return 'raised %s: %s, expected an error of binding\n%s' % (r1['error'][0], r1['msg'], script)
        return
    if show(log) != show([r2['out']]): return 'attributes were bound to %r, expected %r\n%s' % (show(log), show([r2['out']]), script)
    out = [l.strip() for l in r1['out'].split('\n') if l.strip()]
    t = case['text']; lt = '' if not t else t if case['form'] == 'function' else t.replace('<', '&lt;')
    if case['form'] == 'function': lt = lt and escape(lt)
    want = (['<div>'] if case['form'] == 'nested' else []) + ['done'] + ([lt] if lt else []) + (['</div>'] if case['form'] == 'nested' else [])
    if out != want: return 'rendered %r, expected lines %r\n%s' % (r1['out'], want, script)
SUITES['C11'][0] = SUITES['C11'][0][:3] + (check_binding,)

W = dict(def_=4, use=6, tags=2, text=3, if_=.6, for_=.6, while_=0.1, try_=.4)
suite('C11', 'bodies', 3)(general(Profile(weights=W, attrs=.2, depth=5)))
suite('C11', 'errors', 1)(general(Profile(weights=W, attrs=.2, badbind=.2, depth=4)))

@suite('C11', 'function', 1.5)
def function(r, size):
    "%H(text, ...) and the tag H with the same body and attributes; the text is markup when passed to a function"
    g = Gen(r, size, Profile(weights=dict(text=4, tags=3, if_=1, for_=1, def_=.3, use=.3, assign=1), attrs=.3, trace=0))
    env, tags = Env(), {}
    d = g.b_def_(env, tags, 3, False)
    params, bodyname = tags[d.name]
    vals = [repr(r.choice(['a', 'b<c', '', 'x y', 'q"r'])) for _ in params]
    nreq = max([i + 1 for i, (n, dv) in enumerate(params) if dv is None] or [0])
    n = r.randint(nreq, len(params))
    kws = r.random() < .5
    text = r.choice([None, '', 0, False, 'text', 'a<b', 'q & r', 'z', 'two\nlines', '<i>m</i>']) if bodyname else None
    wr = Writer(); d.write(wr, '')
    return dict(define='\n'.join(wr.lines), name=d.name, params=[p for p, _ in params], vals=vals[:n], kws=kws, text=text, hasbody=bool(bodyname), place=r.choice(['/{%s}', '$ %s', 'div\n    |a\n      {%s}', 'p title={%s}', 'i\n  $q = %s', 'p | {%s}']))
def check_function(case):
    ps, vs = case['params'], case['vals']; k = len(vs) // 2 if case['kws'] else len(vs)
    call = ', '.join(['None' if case['text'] is None else 'txt'] + vs[:k] + ['%s=%s' % (p, v) for p, v in zip(ps[k:], vs[k:])])
    occ = case['name'] + ''.join(' {%s}' % v for v in vs[:k]) + ''.join(' %s={%s}' % (p, v) for p, v in zip(ps[k:], vs[k:]))
    names = 'context $txt, ' + ', '.join('$' + n for n in Helpers.names)
    log = []
    names += ', $put'
    def put(v): log.append(v); return ''
    def go(script): h = Helpers(); return observe(lambda: runtime().render(script, txt=case['text'], put=put, **h.env()))
    a = go('%s\n%s\n%s%s' % (names, case['define'], occ, '' if case['text'] is None else ' /{txt}'))
    b = go('%s\n%s\n%s' % (names, case['define'], case['place'] % ('put(%%%s(%s))' % (case['name'], call))))
    if 'error' not in b: b['out'] = log[-1]
    if 'error' in a or 'error' in b:
        if ('error' in a) != ('error' in b): return 'as a tag: %r, as a function: %r\n%s\n%s' % (a, b, case['define'], occ)
        return
    if a['out'] != b['out']: return 'as a tag: %r, as a function: %r\n%s\n%s\n%s' % (a['out'], b['out'], case['define'], occ, call)
SUITES['C11'][3] = SUITES['C11'][3][:3] + (check_function,)
