from .gen import *

INTERNAL = [chr(c) for c in range(0x2760, 0x2778)]
FAR = ['ß', 'ж', '漢', '😀', '\U0010ffff', '\ue000', '\uf8ff', '\x01', '\x02', '\x7f', '\u200b', '\u200d', '\ufeff', '\ufffe', '\u25b6', '\u2190', '\u2770', '\u275f', '\u0301']
@suite('C04', 'substitution', 3)
def substitution(r, size):
    "a character of text, literals and attribute values is replaced by another one: the output changes accordingly and in no other way"
    p = Profile(specials=.1, multiline_values=.02)
    g = Gen(r, size, p)
    lit = g.literal
    def literal():
        s = lit()
        if r.random() < .6:
            i = r.randrange(len(s) + 1); s = s[:i] + 'Ω' * r.choice([1, 1, 2]) + s[i:]
            if not s.replace('Ω', ''): s += 'w'
        return s
    g.literal = literal
    se = g.strexpr
    def strexpr(env, d=1):
        s = se(env, d)
        if s[:1] == "'" and s[-1:] == "'" and s.count("'") == 2 and r.random() < .5: i = r.randrange(1, len(s)); s = s[:i] + 'Ω' * r.choice([1, 1, 2]) + s[i:]
        return s
    g.strexpr = strexpr
    prog = g.program()
    k = r.random()
    if k < .3: cs = INTERNAL
    elif k < .6: a = r.choice([0x2768, 0x2769, 0x276a, 0x276b, 0x276c, 0x276d]); cs = [chr(c) for c in range(a, a + r.choice([1, 1, 2, 3, 4, 8]))]
    elif k < .8: cs = INTERNAL + FAR
    else: cs = [r.choice(INTERNAL + FAR)]
    script, expect, trace = prog.run()
    if 'out' not in expect or 'Ω' not in script: raise Skip
    if '.upper()' in script: raise Skip
    return dict(script=script, expect=expect, chars=cs, seed=r.random())
def check_substitution(case):
    r1 = render(dict(case, helpers=True))
    if r1.get('out') != case['expect']['out']: return compare(case, r1)
    # the script with all omegas replaced by the same character, and by a different one each (at positions that occur once in the output)
    for c in case['chars'][:3] + case['chars'][-2:]:
        r2 = render(dict(script=case['script'].replace('Ω', c)))
        if 'error' in r2: return 'with U+%04X: raised %s: %s' % (ord(c), r2['error'][0], r2['msg'])
        if r2['out'] != case['expect']['out'].replace('Ω', c): return 'with U+%04X: rendered %r, expected %r' % (ord(c), r2['out'], case['expect']['out'].replace('Ω', c))
    many = ''.join(case['chars'])
    r2 = render(dict(script=case['script'].replace('Ω', many)))
    if 'error' in r2: return 'with %r: raised %s: %s' % (many, r2['error'][0], r2['msg'])
    if r2['out'] != case['expect']['out'].replace('Ω', many): return 'with %r: rendered %r, expected %r' % (many, r2['out'], case['expect']['out'].replace('Ω', many))
SUITES['C04'][0] = SUITES['C04'][0][:3] + (check_substitution,)

@suite('C04', 'everywhere', 1)
def everywhere(r, size):
    "all places where a character may stand, with several internal characters at once"
    a = r.choice([0x2768, 0x2769, 0x276a, 0x276b, 0x276c]); cs = [chr(c) for c in range(a, a + r.choice([1, 2, 4, 5, 9, 30, 300]))]
    if r.random() < .3: r.shuffle(cs)
    if r.random() < .3: cs = r.sample(INTERNAL + FAR, r.choice([1, 2, 4]))
    if r.random() < .15:
        # code points at the ends of the range
        cs = [chr(c) for c in r.choice([range(0x10fff0, 0x110000), range(0x10fffa, 0x110000), range(0xfff0, 0x10010), range(0xd7f0, 0xd800), range(0xe000, 0xe010), range(1, 9)])]
    s = ''.join(cs); q = s[:r.choice([1, 2, len(s)])]
    attr = q.translate({i: None for i in range(32)})
    script = 'context $v\n| %s {v} %s\np title="%s" alt={v}:\n   ! %s\n     %s\n   div | {\'%s\'}{v}\n      / %s\n-- %s\nb | end' % (s, q, attr, q, s, q, q, s)
    # the block under `div |` is text
    out = '%s <v> %s\n<p title="%s" alt="<v>">\n   %s\n   %s\n   <div>%s<v>\n   / %s</div>\n</p>\n<b>end</b>' % (s, q, attr, q, s, q, q)
    return dict(script=script, out=out, val=r.choice(['w', s, q]))
def check_everywhere(case):
    v = case['val']
    r = observe(lambda: runtime().render(case['script'], v=v))
    want = case['out']
    if 'error' in r: return 'raised %s: %s' % (r['error'][0], r['msg'])
    attr = ''.join(c if c not in '\n\r\t' else '&#%d;' % ord(c) for c in v)
    want = want.replace('alt="<v>"', 'alt="%s"' % attr).replace('<v>', v)
    if r['out'] != want: return 'rendered %r, expected %r' % (r['out'], want)
SUITES['C04'][1] = SUITES['C04'][1][:3] + (check_everywhere,)

@suite('C04', 'inside', .6)
def inside(r, size):
    "characters inside a word, at all places where a word may stand: control characters and unusual whitespace as well"
    odd = list('\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029\xa0\u3000\t') + [chr(i) for i in range(1, 9)] + INTERNAL + FAR
    def some():
        k = r.random()
        if k < .5: return r.choice(odd)
        if k < .7: return chr(r.choice([r.randrange(0xa0, 0x3000), r.randrange(0x2700, 0x2800), r.randrange(0xe000, 0x10000), r.randrange(0x10000, 0x110000)]))
        return ''.join(r.sample(odd, r.choice([2, 3, 5])))
    ws = ['a%sb' % some() for _ in range(14)]
    return dict(words=ws)
def check_inside(case):
    w = case['words']
    def attr(s): return ''.join(c if c not in '\n\r\t' else '&#%d;' % ord(c) for c in s)
    script = ('%%H @b x="%s" y=\'%s\'\n  | %s\n  @ b\n  | $x $y\n| %s\n! %s\np title="%s" alt=\'%s\': | %s\n  | %s\n     %s\n  ! %s\n     %s\n  / %s\n-- %s\nH y="%s" | %s\n$ v = r"%s"\n$ u = {"%s": \'%s\'}\n| $v {u["%s"]}{"%s" if True else \'\'}'
              % (w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8], w[9], w[10], w[11], w[12], w[13], w[5], w[6], w[7], w[8], w[9], w[8], w[10]))
    want = '%s\n%s\n<p title="%s" alt="%s">%s\n  %s\n   %s\n  %s\n   %s\n  %s</p>\n%s\n%s\n%s %s\n%s %s%s' % (w[3], w[4], attr(w[5]), attr(w[6]), w[7], w[8], w[9], w[10], w[11], w[12], w[2], w[6], w[0], w[5], w[7], w[9], w[10])
    r = observe(lambda: runtime().render(script))
    if 'error' in r: return 'raised %s: %s\n%r' % (r['error'][0], r['msg'], script)
    if r['out'].strip('\n') != want: return 'rendered %r, expected %r\n%r' % (r['out'], want, script)
SUITES['C04'][2] = SUITES['C04'][2][:3] + (check_inside,)
