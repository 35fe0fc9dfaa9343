from .gen import *

ESCAPES = ['{{', '}}', '$$', '&', '<', '>', '&amp;', '&lt;', '"', "'", '{{x}}', '$$x', '&&', '<<', '&#38;', '</p>', '<!--']
def val(r, depth=1):
    "-> (spec, type)"
    k = r.random()
    if k < .45: return ''.join(r.choice(['&', '<', '>', '&amp;', 'a', ' ', 'b c', '"', "'", '$', '{', '}', '{{', '$$x', 'ż', '😀', '\u2768', '&lt;b&gt;', '{x}', '%s', '\\n']) for _ in range(r.choice([0, 1, 2, 3, 6])))
    if k < .55: return r.choice([0, 1, -7, 10**20, True, False])
    if k < .6: return {'float': r.choice(['0.5', '1e100', 'inf', '-2.0'])}
    if k < .63: return r.choice([{'bytes': 'a<b'}, {'complex': '1+2j'}, {'set': ['a&b']}, {'dict': [['k', '<']]}, {'float': '3.14159265358979'}, {'strsub': 'x<y'}])
    if k < .75: return {r.choice(['obj', 'obj', 'html']): r.choice(['<obj>', 'a & b', 'plain', '', '&quot;', '{q}'])}
    if depth and k < .85: return {'tuple': [val(r, 0) for _ in range(r.choice([0, 1, 2]))]}
    if depth: return [val(r, 0) for _ in range(r.choice([0, 1, 2]))]
    return 'x<y'

@suite('C01', 'values', 2)
def values(r, size):
    g = Gen(r, size, Profile(specials=.7, trace=0, tail=.5))
    vars = {'w%d' % i: val(r) for i in range(r.choice([1, 2, 3]))}
    if r.random() < .06: vars['w0'] = None
    def piece():
        k = r.random()
        if k < .4:
            e = E(r.choice(list(vars)))
            if r.random() < .5: e.short = True
            if r.random() < .1: e.q = '?'
            return e
        if k < .45: return E(r.choice(["'&' + '<'", "'x' * 3", "'<b>'", '1 > 2', "['<', '&']", "('a>b',)"]))
        return Lit(r.choice(['', ' ']) + ''.join(r.choice(['&', '<', '>', '{', '}', '$', '&amp;', 'a', 'Bc', ' d', '"', "'", '{x}', '$x', '{{', '$$', '\\', '%', '--', '#', 'ż', '\u2769', '\x7f', '!', '?', '.', '[0]', '(1)']) for _ in range(r.choice([1, 2, 4]))))
    def pieces():
        ps = merge_lits([piece() for _ in range(r.choice([1, 2, 3, 4]))])
        if isinstance(ps[0], Lit): ps[0] = Lit(ps[0].s.lstrip() or 'z')
        if isinstance(ps[-1], Lit): ps[-1] = Lit(ps[-1].s.rstrip() or 'z')
        return ps
    def line(kind): return [Lit((''.join(p.s if isinstance(p, Lit) else '{' + p.src + '}' for p in pieces())).strip() or 'z')] if kind == '!' else pieces()
    def text():
        kind = r.choice('|||/!')
        lines = [(None, merge_lits([Lit(' ')] + line(kind)))]
        if r.random() < .3: lines += [('   ', line(kind)) for _ in range(r.choice([1, 2]))]
        return Text(kind, lines)
    blocks = []
    for _ in range(r.choice([1, 2, 3])):
        t = text()
        k = r.random()
        if k < .25: t = Tags([(r.choice(TAGNAMES), [])], ('text', t))
        elif k < .4: t = Tags([('div', [])], ('blocks', Text('|', [(None, merge_lits([Lit(' ')] + line('|')))]) if r.random() < .5 else None, Body('  ', [t])))
        elif k < .5: t = If([(E('True'), ('text', t))])
        elif k < .6: t = For('i', E('[1, 2]'), ('text', t))
        blocks.append(t)
    if r.random() < .3:
        h = Def('H1', 'bd', [], ('blocks', Body('  ', [Text('|', [(None, [Lit(' <')])]), Embed('bd'), Embed('bd')])))
        blocks = [h, Tags([('H1', [])], ('blocks', None, Body('    ', blocks)))]
    p = Program(Body('', blocks), {k: decode(v) for k, v in vars.items()}, helpers=False)
    return case_of(p, vars=vars)

suite('C01', 'programs')(general(Profile(specials=.8, multiline_values=.08, weights=dict(text=9), none=.01)))

@suite('C01', 'none', .3)
def none(r, size):
    "None in any kind of an interpreted text is an error"
    kind = r.choice('|/')
    e = r.choice(['{None}', '{x}', '$x', "{x or None}", '{d.get(3)}', "{None if True else 1}"])
    text = r.choice(['', 'abc ', '{{', '$$ ']) + e + r.choice(['', ' z', '}}'])
    shape = r.choice(['%s', 'p %s', 'div: %s', 'for i in [1] %s', 'if True %s', 'p\n  %s', 'p : b %s', 'p\n\n   | a\n     b\n   %s'])
    return dict(script='context $x, $d\n' + shape % (kind + ' ' + text), expect=dict(error='*'), vars=dict(x=None, d={'dict': []}), helpers=False)
