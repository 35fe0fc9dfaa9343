"C17: syntax errors and the line that other errors name."
from .gen import *
from .model import Block, Body, Tags, If, For, While, Try, Def, Program
import re

class Raw(Block):
    "a line taken as is"
    def __init__(self, lines): self.lines = lines
    def write(self, wr, ind, head=''):
        self.at = len(wr.lines)
        for l in self.lines: wr.line(ind, l)
    def ev(self, scope): return None

def bodies(b, ctl=False, define=False):
    "all lists of blocks of a program, with (inside a control block, inside a definition)"
    yield b.blocks, ctl, define
    for x in b.blocks:
        if isinstance(x, Tags) and x.body and x.body[0] == 'blocks': yield from bodies(x.body[2], ctl, define)
        elif isinstance(x, Def) and x.body and x.body[0] == 'blocks': yield from bodies(x.body[1], ctl, True)
        else:
            cl = []
            if isinstance(x, If): cl = [c for _, c in x.clauses] + [x.else_ and x.else_[0]]
            elif isinstance(x, (For, While)): cl = [x.body, x.else_ and x.else_[0]]
            elif isinstance(x, Try): cl = list(x.clauses)
            for c in cl:
                if c and c[0] == 'blocks': yield from bodies(c[1], True, define)

BAD = ['p (', '$ = 5', '| {x', 'p id=', 'p id={', 'p "abc', '= x', '$ x = ', 'if', 'for x', 'for x in', 'while', '%', '%H @', '%H a=', '@', 'from x import', 'from x import y', 'p:: | a', 'p : q r=', '$ x +', 'p }', '5 | a',
       '|x}', 'elif', '*', '^ a', '$ 1 = 2', '$ x.y = 2', 'try: x', 'import x', '| a $', '/ {', '. x', '- c', '$ x = [1, 2', '~', 'p .', '.cls #id x', '-comment', '...', '<', '& x', '%H a, b', 'if x else', 'for 5 in x',
       'p id=5 =7', '| {a b c d e f g h i', '/ ala {1 +} ma kota', '$ abcdefghijklmno = (1, 2, 3', 'div class="a" id="b" title="c', 'p | żółć {', 'p | ąęść łódź }', '$ y = = 2', 'div: p: ul: | {1', 'p | {1}}']

# characters which some functions take for line breaks; in a script, only a newline is
ODD = ['\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x85', '\u2028', '\u2029', '\r']

def base(r, size, **kw):
    g = Gen(r, size, Profile(**dict(dict(blank=.3, tail=.3, multiline_values=.1), **kw)))
    return g.program()
def insert(r, prog, raw, ok=lambda ctl, d: True):
    places = [b for b, c, d in bodies(prog.body) if ok(c, d)]
    b = r.choice(places)
    # an empty clause list never occurs: the block goes before, between or after the others
    i = r.randrange(len(b) + 1)
    raw.blank = r.choice([0, 0, 1, 3])
    b.insert(i, raw)

@suite('C17', 'syntax', 3)
def gen_syntax(r, size):
    prog = base(r, size + 1)
    bad = r.choice(BAD)
    tail = [r.choice(BAD)] if r.random() < .3 else []
    raw = Raw([bad] + tail)
    insert(r, prog, raw)
    script = prog.script()
    at = raw.at
    if r.random() < .3: pre = r.choice([['-- c'], ['', ''], ['# x', '', '# y'], ['-- a%sb' % r.choice(ODD)], ['| x%sy z%sq' % (r.choice(ODD), r.choice(ODD)), ''], ['/ a%s' % r.choice(ODD), '! %sc' % r.choice(ODD)]])
    else: pre = []
    if r.random() < .05: pre = pre + [r.choice(['', '-- c', '| t'])] * r.choice([100, 150, 260])
    lines = script.split('\n')
    if pre: lines = [lines[0]] + [p and prog.body.w + p for p in pre] + lines[1:]; at += len(pre)
    return dict(script='\n'.join(lines), line=at + 1, bad=bad)
def check_syntax(case):
    r = render(dict(case))
    if 'error' not in r or 'SyntaxError' not in r['error']: return 'line %d is invalid (%r), but %s' % (case['line'], case['bad'], 'raised %s: %s' % (r['error'][0], r['msg']) if 'error' in r else 'rendered %r' % r['out'])
    nums = re.findall(r'line (\d+)', r['msg'])
    if str(case['line']) not in nums[:1]: return 'line %d is the first invalid (%r), but the message is: %s' % (case['line'], case['bad'], r['msg'])
    if case['bad'].strip()[:10] not in r['msg']: return 'the message does not quote the line %d (%r): %s' % (case['line'], case['bad'], r['msg'])
SUITES['C17'][0] = SUITES['C17'][0][:3] + (check_syntax,)

@suite('C17', 'positions', 3)
def gen_pos(r, size):
    prog = base(r, size + 1)
    undef = ['$ x = zq_no', '| a $zq_no b', '| {1 + zq_no}', 'p title={zq_no} | x', 'zq_no | x', 'p: zq_no: b', 'if zq_no', 'for i in zq_no', 'while zq_no', '$ %zq_no("a")', '$zq_no += 1', '@ zq_no', '| ok {[1, zq_no]}', 'div: p : b id=$zq_no | x']
    late = ['| {None}', '/ x {None} y', "| {''!}", "| {0!}", 'p | x{None}', 'div: p: b | a {None} b', 'PP 1 2', 'PP', 'PP q=1', 'PP 1 x=2', 'PP 1 | bb', 'p: PP 1 2 3', 'p: PP', '$ u, w = [1]', '$ u, w = [1, 2, 3]', '$ u, (w, z) = [1, [2]]']
    where = r.random()
    if where < .5:
        bad = r.choice(undef); raw = Raw([bad]); insert(r, prog, raw)
    else:
        bad = r.choice(late); raw = Raw([bad]); insert(r, prog, raw, lambda ctl, d: not ctl and not d)
    if 'PP' in bad:
        d = Raw(['%PP x', '  p | $x']); prog.body.blocks.insert(0, d)
    if r.random() < .25: prog.body.blocks.insert(0, Raw(['| q%sr' % r.choice(ODD), '-- %s' % r.choice(ODD)][:r.choice([1, 2])]))
    script = prog.script()
    return dict(script=script, line=raw.at + 1, bad=bad)
def check_pos(case):
    r = render(dict(case))
    if 'error' not in r: return 'line %d is wrong (%r), but rendered %r' % (case['line'], case['bad'], r['out'])
    nums = re.findall(r'line (\d+)', r['msg'])
    if str(case['line']) not in nums[:1]: return 'the offending element is at line %d (%r), but the message is: %s: %s' % (case['line'], case['bad'], r['error'][0], r['msg'])
SUITES['C17'][1] = SUITES['C17'][1][:3] + (check_pos,)

@suite('C17', 'prefixes', 2)
def gen_prefixes(r, size):
    "every initial segment of a well-formed script is well-formed"
    prog = base(r, size + 1, tabs=.3, multiline_values=.3)
    return dict(script=prog.script())
def check_prefixes(case):
    from hypertag.core.ast import HypertagAST
    from hypertag.core.runtime import HyModule
    rt = runtime()
    lines = case['script'].split('\n')
    n = len(lines)
    for k in range(n, max(n - 6, -1), -1):
        s = '\n'.join(lines[:k])
        try: HypertagAST(s, HyModule(runtime=rt, script=s))
        except SyntaxError as ex: return 'the first %d lines of a well-formed script raise %s: %s\n%s' % (k, type(ex).__name__, ex, s)
SUITES['C17'][2] = SUITES['C17'][2][:3] + (check_prefixes,)

@suite('C17', 'damaged', 2)
def gen_damaged(r, size):
    "one character of a script is lost or replaced; the reported line is compared with a linear search over its initial segments"
    s = base(r, size + 1).script()
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(s))
        s = s[:i] + r.choice(['', '', '{', '}', '"', '(', ':', '$', '=', '%', '|', '@', ')']) + s[i + 1:]
    return dict(script=s)
def check_damaged(case):
    from hypertag.core.ast import HypertagAST
    from hypertag.core.runtime import HyModule
    rt = runtime()
    def parse(s):
        try: HypertagAST(s, HyModule(runtime=rt, script=s))
        except IndentationError: raise Skip()
        except SyntaxError as ex:
            if 'invalid syntax near line' in str(ex): return ex
        except Exception: raise Skip()
    ex = parse(case['script'])
    lines = case['script'].split('\n')
    if ex is None:
        return None
    for k in range(1, len(lines) + 1):
        if parse('\n'.join(lines[:k])) is not None: break
    m = re.search(r'near line (\d+): (.*)', str(ex), re.S)
    q = m.group(2)
    q = q[:-3] if q.endswith('...') else q
    if int(m.group(1)) != k: return 'the first %d lines are valid and the first %d are not, but the message is: %s' % (k - 1, k, ex)
    if q[:15].rstrip() not in lines[k - 1] : return 'line %d is not quoted: %s' % (k, ex)
SUITES['C17'][3] = SUITES['C17'][3][:3] + (check_damaged,)
