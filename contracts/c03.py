"C03: block nesting follows leading whitespace exactly and preserves every line."
from vc.contract import contract
from contracts.lib import *

@contract('C03', 'core.ast.Grammar.preprocess', budget=400)
def preprocess(I):
    """every non-blank line is written with its content under its own number, after the symbols for exactly the characters by which its
    indentation differs from that of the previous non-blank line; IndentationError if and only if there is a line where neither
    indentation is a prefix of the other, naming the first such line"""
    m = ast(); I.relevant_facts(); I.feasibility_ms(300)
    sym = {k: I.letter(k, '\u2768\u2769\u276A\u276B') for k in ('INDENT_S', 'DEDENT_S', 'INDENT_T', 'DEDENT_T')}
    script = I.lines('script')
    n = I.nlines(script)
    I.past_end(script)                  # one more empty line at the end
    def line(k): return I.rstrip(I.line(script, k))
    def tail(k): return I.lstrip(line(k), ' \t')
    def indent(k): return I.prefix(line(k), I.length(line(k)) - I.length(tail(k)))
    def blank(k): return I.and_(k < n, I.eq(tail(k), ''))
    # previous(k): indentation of the last non-blank line among the first k; there is a blank one after the last line to close all levels
    previous = I.rec('previous', 'str', '', lambda k, x: I.ite(blank(k), x, indent(k)))
    # margin(k): number of blank lines just before line k
    margin = I.rec('margin', 'int', 0, lambda k, x: I.ite(blank(k), x + 1, 0))
    def compatible(k): return I.or_(I.startswith(indent(k), previous(k)), I.startswith(previous(k), indent(k)))
    def ok_step(k, x):
        return I.and_(x, I.or_(blank(k), compatible(k)))
    ok = I.rec('ok', 'bool', True, ok_step)
    bad = I.first_failure('first_incompatible', n + 1, ok)
    def symbols(k):
        p, q = previous(k), indent(k)
        opened = I.chars(I.suffix(q, I.length(p)), lambda c: I.ite(I.eq(c, ' '), sym['INDENT_S'], sym['INDENT_T']))
        closed = I.chars(I.reversed(I.suffix(p, I.length(q))), lambda c: I.ite(I.eq(c, ' '), sym['DEDENT_S'], sym['DEDENT_T']))
        return I.ite(I.eq(p, q), '', I.ite(I.startswith(q, p), opened, closed))
    out = I.rec('out', 'str', '', lambda k, x: I.ite(blank(k), x, x + symbols(k) + '\n' + I.repeat('\n', margin(k)) + tail(k)))
    I.joined_hint('\n', out)
    expected = out(n + 1)
    parser = I.new(m.Grammar, 'parser', symbols=dict(sym))
    o = I.call(m.Grammar.preprocess, parser, script)
    if I.truth(bad <= n):
        I.check('error', o.raised and o.is_exc(IndentationError))
        I.check('line', I.mentions(message(I, o.exc), bad + 1))
        return
    I.check('no_error', not o.raised)
    if o.raised: return
    I.check('result', I.eq(o.value + '\n', expected))     # without the newline that would start a next line
