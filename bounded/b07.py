from .expr import *

@suite('C07', 'qualified', 3)
def qualified(r, size):
    "qualifiers at all places of an expression"
    e = expression(r, size, quals=.25, fail=.2)
    return dict(expr=e.h, py=e.p, form=r.choice(['$ put(%s)', '$q = %s\n$ put(q)', '| {put(%s)}']))
def check_qualified(case): return compare_eval(case, case['form'].replace('%s', case['expr']))
SUITES['C07'][0] = SUITES['C07'][0][:3] + (check_qualified,)

KINDS = ['0', '1', "''", "'x<'", 'None', '[]', '[0]', 'False', 'True', '0.0', "1/0", "boom('b')", "boom('b', 'KeyError')", "boom('b', 'NameError')", "boom('b', 'UnboundLocalError')", "boom('b', 'AssertionError')", "boom('b', 'SyntaxError')", "''!", "(0)!", "dd['zz']", 'l[99]', 's.nope', 's.upper()', "s + 1", "t('k', 0)", "t('k', 5)", "t('k', None)", "{}", "()", "(boom('c'))?", "int('q')", "i.bit_length()", "dd.get(8)"]
@suite('C07', 'places', 2)
def places(r, size):
    "a qualified expression at the places where it may stand: what is evaluated, and what is printed"
    e = r.choice(KINDS); q = r.choice(['?', '!', ''])
    if e.isidentifier() and r.random() < .5: pass
    place = r.choice(['text', 'brace', 'short', 'attr', 'attrbrace', 'assign', 'cond', 'for', 'markup', 'string', 'arg'])
    after = r.choice(['b', 'b', ' ?', ' !x', '.a', '[0]', '(2)', ' (i)', ' b'] + ['?', '!', '?b', '!?', '?.a'] * bool(q))       # text that follows directly
    if place == 'short': after = r.choice(['.a', '[0]', '(2)', '?', '!?', ' ?', ' b', '?b', ':str'] if q else [' b', ' ?', ' !', ' (i)', ' .a', ':str'])
    return dict(e=e, q=q, place=place, after=after)
def check_places(case):
    e, q, place, after = case['e'], case['q'], case['place'], case.get('after', 'b')
    f = '(%s)%s' % (e, q); brace = '{%s}%s' % (e if not e.startswith('{') else ' ' + e + ' ', q)
    if place == 'short':
        pre = "$xx = 1\n"
        tail = r'' 
    import html
    scripts = dict(text='| a%s%s' % (brace, after), brace='| a{%s}b' % f, attr='p x=%s' % f, attrbrace='p x=%s' % brace, assign='$q = %s\n$ put(q)' % f, cond='if %s\n  | yes\nelse\n  | no' % f, markup='/ a%s%s' % (brace, after), string="$ put('a%s%s')" % (brace.replace("'", '"'), after), arg='$ put(t(%r, %s))' % ('w', f))
    scripts['for'] = 'for y in %s\n  | y' % f
    pye = "q_('%s', lambda: %s)" % (q, e) if q else e
    # nested qualifiers of the sub-expressions in Python
    for a, b in (("''!", "q_('!', lambda: '')"), ("(0)!", "q_('!', lambda: 0)"), ("(boom('c'))?", "q_('?', lambda: boom('c'))")): pye = pye.replace(a, b)
    if place == 'short':
        var, tail = r_short(case)
        if var is None: raise Skip
        scripts['short'] = '| a$%s%s%s' % (var, q, after); pye = "q_('%s', lambda: %s)" % (q, var) if q else var
    if place == 'string' and '"' in e: raise Skip
    h1, r1, _ = run_hyper(scripts[place])
    h2, r2, env = run_python(pye)
    v = None
    if 'error' not in r2:
        h3 = Rec(); env3 = h3.env(); env3.update({k: decode(x) for k, x in VARS.items()}); env3.update(Py.env); v = eval(pye, env3)
    what = '%s at %s' % (f, place)
    want = None
    if 'error' in r2: want = r2
    elif place in ('text', 'brace', 'markup', 'short', 'string'):
        if v is None: want = dict(error=['*'])
        else:
            s = str(v)
            if place in ('text', 'brace', 'short'): s = html.escape(s, quote=False)
            want = dict(out='a%s%s' % (s, 'b' if place == 'brace' else after)) if place != 'string' else dict(put=['str', 'a%s%s' % (s, after)])
    elif place in ('attr', 'attrbrace'):
        if isinstance(v, (bool,)): want = dict(out='<p x></p>' if v else '<p></p>')
        else:
            from .model import quote
            want = dict(out='<p x=%s></p>' % quote(str(v)))
    elif place == 'assign': want = dict(put=v)
    elif place == 'arg': want = dict(put=v); h2.trace.append('w')
    elif place == 'cond': want = dict(out='yes' if v else 'no')
    elif place == 'for':
        try: n = len(list(v)); want = dict(out='\n'.join(['y'] * n))
        except TypeError: want = dict(error=['TypeError'])
    if 'error' in want:
        if 'error' not in r1: return '%s: rendered %r, expected %s' % (what, r1['out'], want['error'][0])
        if want['error'][0] not in ('*', 'FalseValue') and want['error'][0] not in r1['error']: return '%s: raised %s: %s, expected %s' % (what, r1['error'][0], r1['msg'], want['error'][0])
        if want['error'][0] == 'FalseValue' and set(r1['error']) & {'TypeError', 'ValueError', 'ZeroDivisionError'}: return '%s: raised %s: %s, expected an error of a false value' % (what, r1['error'][0], r1['msg'])
    elif 'error' in r1: return '%s: raised %s: %s, expected %r' % (what, r1['error'][0], r1['msg'], want)
    elif 'put' in want:
        p = want['put'] if place != 'string' else want['put'][1]
        if h1.result != show(p): return '%s: value %r, expected %r' % (what, h1.result, show(p))
    elif r1['out'] != want['out']: return '%s: rendered %r, expected %r' % (what, r1['out'], want['out'])
    if h1.trace != h2.trace: return '%s: calls %r, expected %r' % (what, h1.trace, h2.trace)
def r_short(case):
    e = case['e']
    m = {'0': 'is_a', '1': 'i', "''": 'z', "'x<'": 's', "dd['zz']": "dd['zz']", 'l[99]': 'l[99]', 's.nope': 's.nope', 's.upper()': 's.upper()', 'None': 'l[2]', 'dd.get(8)': 'dd.get(8)', 'i.bit_length()': 'i.bit_length()', "int('q')": "fn('q')", "boom('b')": "boom('b')", "t('k', 0)": "t('k',0)", "t('k', 5)": "t('k',5)", "t('k', None)": "t('k',None)"}
    return m.get(e), ''
SUITES['C07'][1] = SUITES['C07'][1][:3] + (check_places,)
