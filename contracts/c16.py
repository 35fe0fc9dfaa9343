"C16: functions and filters of the standard library."
from vc.contract import contract
from contracts.lib import *
import operator

def B():
    import hypertag.std.builtins as m
    return m
def U():
    import hypertag.nifty.util as m
    return m

# ------------------------------------------------------------------------------------------------------------ crop

@contract('C16', 'std.builtins.crop', 'std.builtins.truncate')
def crop(I):
    "the documented prefix and end mark, for all strings and parameters"
    I.feasibility_ms(150)
    s, end = I.str('s', alphabet='ab  c'), I.str('end', alphabet='.')
    length, maxdrop, leeway = I.int('length', 0, None), I.int('maxdrop', 0, None), I.int('leeway', 0, None)
    killwords = I.fork('killwords')
    I.assume(length >= I.length(end))
    f = getattr(B(), I.choice('name', ['crop', 'truncate']))
    o = I.call(f, s, length, end, killwords, maxdrop, leeway) if I.fork('positional') else I.call(f, s, length=length, end=end, killwords=killwords, maxdrop=maxdrop, leeway=leeway)
    I.check('no_exception', not o.raised)
    r = o.value
    if I.truth(I.length(s) <= length + leeway):
        I.check('short_strings_as_they_are', I.eq(r, s)); return
    I.check('at_most_length', I.length(r) <= length)
    m = length - I.length(end)
    k = I.length(r) - I.length(end)                             # characters kept
    I.check('prefix_and_end_mark', I.eq(r, s[:k] + end))
    I.check('not_beyond_the_limit', I.and_(k >= 0, k <= m))
    head = s[:m]
    if killwords: I.check('cut_exactly', I.eq(k, m)); return
    j = I.rfind(head, ' ')                                      # the last space, if any
    if I.truth(I.and_(j >= 0, m - j <= maxdrop)): I.check('last_word_dropped', I.eq(k, j))
    else: I.check('last_word_split', I.eq(k, m))

@contract('C16', 'std.builtins.crop')
def crop_defaults(I):
    "length 255, '...', words preserved, maxdrop 10, leeway 0"
    I.feasibility_ms(150)
    s = I.str('s')
    if I.concrete: s = s * I.choice('rep', [1, 60, 90, 200])
    a, b = I.call(B().crop, s), I.call(B().crop, s, 255, '...', False, 10, 0)
    I.check('no_exception', not a.raised and not b.raised)
    if I.truth(I.length(s) <= 255): I.check('whole', I.eq(a.value, s)); return
    I.check('length', I.and_(I.length(a.value) <= 255, I.length(a.value) >= 245))
    if I.concrete: I.check('same', a.value == b.value)

# ------------------------------------------------------------------------------------------------------------ text functions

@contract('C16', 'std.builtins.inline', 'std.builtins.lower', 'std.builtins.upper', 'std.builtins.merge', 'std.builtins.dedent', 'std.builtins.doctype')
def text_functions(I):
    "each is the library function it is documented as, applied to the whole text and to nothing else"
    s = I.str('s')
    f = I.choice('f', ['inline', 'lower', 'upper', 'merge', 'dedent', 'dedent_full', 'dedent_common', 'doctype', 'doctype_value'])
    if f == 'dedent_common': I.contract(domm().del_indent, lambda t, *a: I.f('common', 'str', t, len(a))); I.patch(B(), 'del_indent', domm().del_indent)
    v = I.str('v')
    import re
    args = {'dedent_full': (True,), 'dedent_common': (False,), 'doctype_value': (v,)}.get(f, ())
    o = I.call(getattr(B(), f.split('_')[0]), s, *args)
    I.check('no_exception', not o.raised)
    if f == 'inline': I.check('newlines', I.eq(o.value, I.replace(s, {'\n': '&#10;'})))
    elif f in ('lower', 'upper'): I.check('case', I.eq(o.value, I.strmethod(s, f)))
    elif f == 'merge': I.check('normalized_spaces', I.eq(o.value, I.strmethod(I.resub(r'\s+', ' ', s), 'strip')))
    elif f in ('dedent', 'dedent_full'): I.check('no_indentation', I.eq(o.value, I.resub(r'(?m)^\s+', '', s)))
    elif f == 'dedent_common': I.check('common_indentation', I.eq(o.value, I.f('common', 'str', s, 0)))
    elif f == 'doctype': I.check('html', I.eq(o.value, '<!DOCTYPE html>'))
    else: I.check('value', I.eq(o.value, '<!DOCTYPE ' + v + '>'))

# ------------------------------------------------------------------------------------------------------------ unique

@contract('C16', 'nifty.util.unique')
def unique_list(I):
    "the first occurrences, in order, of a list of any length"
    n = I.int('n', lo=0)
    x = lambda k: I.f('x', 'str', k)
    xs = I.items('xs', x, n)
    seen = I.rec('seen', 'dict', I.dict(), lambda k, d: I.ite_dict(I.contains(d, x(k)), d, lambda: I.dict_set(d, x(k), True)))
    want = I.rec('want', 'list', I.list([]), lambda k, l: I.ite_list(I.contains(seen(k), x(k)), l, lambda: I.seqcat(l, I.list([x(k)]))))
    o = I.call(U().unique, xs)
    I.check('no_exception', not o.raised)
    I.check('first_occurrences', I.items_eq(o.value, want(n)))

@contract('C16', 'std.builtins.unique')
def unique_lines(I):
    "non-empty stripped lines (or all lines as they are) without duplicates"
    t = I.str('text', alphabet='ab \n\n\t') if not I.concrete else '\n'.join(I.str('l%d' % i, alphabet='ab ') for i in range(I.choice('nl', [0, 1, 2, 4])))
    how = I.choice('strip', ['default', 'yes', 'no'])
    m = I.int('m', lo=0)
    u = lambda k: I.f('u', 'str', k)
    got = []
    def uniq(l):
        got.append(l)
        return I.items('us', u, m)
    B().unique_list
    I.patch(B(), 'unique_list', I.stub(uniq))
    lines = I.splitlines(t)
    n = I.length(lines)
    def step(k, l):
        x = I.strmethod(I.splitline(t, k), 'strip')
        return I.ite_list(I.eq(x, ''), l, lambda: I.seqcat(l, I.list([x])))
    stripped = I.rec('stripped', 'list', I.list([]), step)
    text = I.rec('text', 'str', '', lambda k, acc: I.ite(I.eq(k, 0), u(k), acc + '\n' + u(k)))
    o = I.call(B().unique, t) if how == 'default' else I.call(B().unique, t, how == 'yes')
    I.check('no_exception', not o.raised)
    I.check('once', len(got) == 1)
    I.check('the_lines', I.items_eq(got[0], lines if how == 'no' else stripped(n)))
    I.check('joined', I.eq(o.value, text(m)))

# ------------------------------------------------------------------------------------------------------------ changes, cycle

@contract('C16', 'std.builtins.changes')
def changes(I):
    "each element with whether it differs from its predecessor, for any sequence"
    n = I.int('n', lo=0)
    x = lambda k: I.f('x', 'val', k)
    xs = I.items('xs', x, n)
    first = I.val('first')
    given = I.fork('first_given')
    I.list_hint('pairs', lambda i: (x(i), I.ite(I.eq(i, 0), first if given else True, I.op2(operator.ne, x(i), x(i - 1)))))
    I.index_hint('x', x)
    src = xs if I.fork('list') else I.generator(n, lambda k: I.item(xs, k))
    o = I.call(B().changes, src, first) if given else I.call(B().changes, src)
    I.check('no_exception', not o.raised)
    out = I.force(o.value)
    I.check('one_per_element', I.eq(I.length(out), n))
    j = I.int('j', 0, None)
    I.assume(j < n)
    p = I.item(out, j)
    I.check('value', I.same(I.item(p, 0), I.item(xs, j)))
    if I.truth(I.eq(j, 0)): I.check('first', I.same(I.item(p, 1), first if given else True))
    else: I.check('change', I.same(I.item(p, 1), I.op2(operator.ne, I.item(xs, j), I.item(xs, j - 1))))

@contract('C16', 'std.builtins.cycle', budget=200)
def cycle(I):
    "item j is made of items j mod n_i of the sequences; as many items as the stop mode says (1-3 sequences of any lengths)"
    m = I.choice('m', [1, 2, 3])
    ns = [I.int('n%d' % i, lo=1) for i in range(m)]
    seqs = [I.vals('s%d' % i, ns[i]) for i in range(m)]
    args = [I.generator(ns[i], lambda k, i=i: I.item(seqs[i], k)) if I.concrete and I.choice('g%d' % i, [0, 1]) else seqs[i] for i in range(m)]
    stop = I.choice('stop', ['default', 'first', 'longest', 'never'])
    o = I.call(B().cycle, *args) if stop == 'default' else I.call(B().cycle, *args, stop=None if stop == 'never' else stop)
    I.check('no_exception', not o.raised)
    want = None
    if stop in ('default', 'first'): want = ns[0]
    if stop == 'longest':
        want = ns[0]
        for x in ns[1:]: want = I.ite(x > want, x, want)
    j = I.int('j', 0, None)
    got = I.iter_len(o.value)
    if want is None: I.check('never_stops', got is None)
    else: I.check('number', got is not None and I.eq(got, want)); I.assume(j < want)
    t = I.nth(o.value, j)
    I.check('one_of_each', I.eq(I.length(t), m))
    for i in range(m): I.check('cyclically', I.same(I.item(t, i), I.item(seqs[i], j % ns[i])))

@contract('C16', 'std.builtins.cycle')
def cycle_errors(I):
    "unknown parameters are errors; nothing comes of nothing"
    if I.fork('unknown'): I.check('error', I.call(B().cycle, I.vals('s', 2), stopp='first').is_exc(Exception)); return
    o = I.call(B().cycle, stop=I.choice('stop', ['first', 'longest', None]))
    I.check('empty', not o.raised and I.eq(I.length(I.force(o.value)), 0))
