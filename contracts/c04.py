"C04: any character may occur in a script."
from vc.contract import contract
from contracts.lib import *

def default_chars(): return ['\u2768', '\u2769', '\u276A', '\u276B']

@contract('C04', 'core.ast.Grammar.get_parser')
def special_characters(I):
    "the four characters that stand for indentation are single characters, all different, and do not occur in the script"
    G = ast().Grammar
    text = I.str('script', 'ab\n\u2768\u2769\u276a\u276b\u276c\u276d\u276f\u2770')
    made = []
    def init(self, special_chars=None, **kw):
        I.check('four', special_chars is not None and len(special_chars) == 4)
        made.append((self, [special_chars[i] for i in range(4)]))
    symbols = dict(I.getattr(G.default, 'symbols')) if I.concrete else dict(G.default.symbols)
    I.contract(G.__init__, init)
    I.cmp_hint(0x2768, 0x110000)
    o = I.call(G.get_parser, text)
    if o.raised: I.check('only_when_no_character_is_left', o.is_exc(ValueError)); return
    if o.value is G.default:
        I.check('default_parser', not made)
        chars = [symbols[x] for x in ('INDENT_S', 'DEDENT_S', 'INDENT_T', 'DEDENT_T')]
    else:
        I.check('its_own_parser', made and made[-1][0] is o.value)
        chars = made[-1][1]
    for i, c in enumerate(chars):
        I.check('a_character', I.eq(I.length(c), 1))
        I.check('not_in_the_script', I.not_(I.contains(text, c)))
        for d in chars[:i]: I.check('different', I.not_(I.eq(c, d)))

@contract('C04', 'core.ast.Grammar.__init__', bounded='some sets of characters')
def parser_symbols(I):
    "a parser made for four characters uses those for indentation, both in its grammar and in the preprocessing"
    m = ast()
    G = m.Grammar
    a = I.choice('first', [0x2768, 0x276c, 0x2770, 0x4e00, 0x1f600])
    chars = [chr(a + i) for i in range(4)]
    if I.fork('reversed'): chars = chars[::-1]
    got = []
    I.contract(m.Parsimonious.__init__, lambda self, rules, *x: got.append(rules))
    g = I.new(G)
    o = I.call(G.__init__, g, chars)
    I.check('no_exception', not o.raised)
    s = I.getattr(g, 'symbols')
    for n, c in zip(('INDENT_S', 'DEDENT_S', 'INDENT_T', 'DEDENT_T'), chars):
        I.check('symbol', s[n] == c)
    I.check('grammar', len(got) == 1 and all(c in got[0] for c in chars) and not any(c in got[0] for c in default_chars() if c not in chars))
