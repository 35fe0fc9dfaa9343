from .gen import *
W = dict(try_=4, text=4, tags=3, if_=1, for_=1, while_=.4, assign=1.5, use=1.5, def_=.6)
suite('C06', 'try', 3)(general(Profile(weights=W, trace=.4, expr=.5)))
suite('C06', 'layout', 1)(general(Profile(weights=W, blank=.4, mods=.15, tabs=.3, depth=5, attrfail=.1)))
suite('C06', 'exit', .6)(general(Profile(weights=W, trace=.4, halt=.05)))

@suite('C06', 'points', 1.5)
def points(r, size):
    "a failure at one chosen place of a clause: in nested blocks, loops, hypertag bodies, attributes, bindings, assignments"
    kinds = ["(1/0)", "boom('b')", "boom('b', 'StopIteration')", "boom('b', 'AssertionError')", "boom('b', 'NameError')", "boom('b', 'UnboundLocalError')", "boom('b', 'SyntaxError')", "''!", "boom('b', 'RuntimeError')", "next(mk('iter', []))", "int('x')"]
    f = r.choice(kinds)
    places = ['| {%s}', 'p | {%s}', 'p title={%s}', 'p:\n  | a\n  div id={%s}', '$x = %s', '$ %s', '$y, z = %s', '$n += %s', 'if %s\n  | a', 'if False:\n  | a\nelif %s:\n  | b', 'while %s\n  | a', 'for i in %s\n  | a',
              'for i in [1, 2, 3]\n  | i{i}\n  if i == 2\n    | {%s}', 'HH {%s}', 'HH a={%s}', 'HH | {%s}', 'HH 1: p: div: ul: | {%s}', 'table\n\n  tr\n    td | x\n    td | {%s}', 'HF {%s}', "| {t('q', %s)}", '/ a\n  b {%s}',
              'HH 1 2 3 4', 'HH q=1', 'HN 1 | x', 'HN', 'HH 1 a=2', 'HN 1 2', "| {None}", '| $nn', 'p\n  $a = nn.foo', 'for a, b in [1]\n   | x', '$(a, b), c = (1, 2)', 'if True:\n  | part\n  | {%s}', 'HG 1', 'div\n  HG 1\n     | z']
    place = r.choice(places)
    bad = place.replace('%s', f)
    dep = r.choice(['', 'p\n', 'div: ul: li\n'])
    ok = r.choice(["| ok {t('k')}", 'p id="1" | fine', 'b: i: | x', '$v = 7', "div\n  | x\n\n  | y"])
    okout = {"| ok {t('k')}": 'ok None', 'p id="1" | fine': '<p id="1">fine</p>', 'b: i: | x': '<b><i>x</i></b>', '$v = 7': None, "div\n  | x\n\n  | y": '<div>\n  x\n\n  y\n</div>'}
    if ok == "| ok {t('k')}": ok = "| ok {str(t('k'))}"; okout[ok] = 'ok None'
    n = r.choice([0, 1, 2, 3]); good = r.choice([True, True, False])
    clauses = [bad if i == 0 else r.choice(places).replace('%s', r.choice(kinds)) for i in range(n + 1)] + ([ok] if good else [])
    w = r.choice([' ', '  ', '    ', '\t'])
    ind = lambda s: '\n'.join(w + l if l else l for l in s.split('\n'))
    block = '\nelse\n'.join(ind(c) for c in clauses)
    block = 'try\n' + block
    res = okout[ok] if good else None
    def lines(s, pre): return '' if s is None else ''.join('\n' + (pre + l if l else l) for l in s.split('\n'))
    head = 'context $t, $boom, $halt, $upto, $fn, $mk, $gen\n$n = 1\n$nn = None\n%HH @bd a\n  div\n    | $a\n    @ bd\n%HN a\n  p | $a\n%HF a\n  $x = a + 1\n  | $x\n%HG @bd a\n  for i in [1, 2]\n    p @ bd\n    | {1 // (2 - i)}\n'
    if r.random() < .5:
        # nested in a tag, between other blocks
        script = head + 'ul id="u"\n' + w + '| before\n' + ind(block) + '\n' + w + 'p | after\n| end'
        out = '<ul id="u">\n' + w + 'before' + lines(res, w) + '\n' + w + '<p>after</p>\n</ul>\nend'
    else:
        script = head + '| before\n' + block + '\np | after\n| end'
        out = 'before' + lines(res, '') + '\n<p>after</p>\nend'
    return dict(script=script, expect=dict(out=out))
def check_points(case):
    r = render(case)
    if 'error' in r: return 'raised %s: %s; expected output %r' % (r['error'][0], r['msg'], case['expect']['out'])
    if r['out'] != case['expect']['out']: return 'rendered %r, expected %r' % (r['out'], case['expect']['out'])
SUITES['C06'][3] = SUITES['C06'][3][:3] + (check_points,)
