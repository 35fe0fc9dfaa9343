"C17: syntax errors are reported for exactly the invalid scripts and their first line."
from vc.contract import contract
from contracts.lib import *

class Ref: "some object"

@contract('C17', 'core.ast.HypertagAST.__init__', 'core.ast.HypertagAST._locate_error')
def syntax_error(I):
    "a script that parses is accepted; for one that does not the error names the first line whose inclusion makes the script invalid, and quotes its beginning"
    m = ast()
    A = m.HypertagAST
    script = I.lines('script')
    n = I.nlines(script)
    bad = I.int('first_bad_line', lo=1)          # the script truncated after line k parses if and only if k is less than that
    I.cmp_hint(bad, n)
    def preprocess(t, **kw):
        return I.new(Ref, 'flat', text=t)
    def parse(self, flat, *args, **kw):
        t = flat.text
        k = I.nlines(t)
        I.check_lines('first_lines', t, k, lambda i: I.line(script, i))
        I.check('truncated', k <= n)
        if I.truth(k >= bad): I.raise_('parse', None, m.IncompleteParseError)
        self.root = root
    root = I.new(m.NODES.xdocument)
    I.contract(m.BaseTree.__init__, parse)
    parser = I.new(m.Grammar, 'parser', preprocess=I.stub(preprocess))
    I.contract(m.Grammar.get_parser, lambda t: (I.check('parser_for_script', I.eq(t, script)), parser)[1])
    module = I.new(Ref, 'module', runtime=None, filename=None)
    tree = I.new(A, 'tree')
    o = I.call(A.__init__, tree, script, module)
    if I.truth(bad > n): I.check('accepted', (not o.raised) and tree.root is root); return
    I.check('syntax_error', o.raised and o.is_exc(SyntaxError))
    line = I.strmethod(I.line(script, bad - 1), 'strip')
    q = I.prefix(line, 15)
    want = 'invalid syntax near line ' + I.strof(bad) + ': ' + I.ite(I.length(line) > 15, q + '...', q)
    I.check('message', I.eq(message(I, o.exc), want))

@contract('C17', 'nifty.parsing.ParserError.__init__', 'core.errors.HError.make_msg')
def error_position(I):
    "an error due to a node names the line on which the node begins in the script, and its column there"
    m = ast()
    from hypertag.nifty.parsing import ParserError
    text = I.str('fulltext', '\n\n ab\u2768\u2769\u276A\u276B')
    p = I.int('begin', lo=0)
    I.assume(p <= I.length(text))
    parser = I.new(m.Grammar, 'parser', symbols={'INDENT_S': '\u2768', 'DEDENT_S': '\u2769', 'INDENT_T': '\u276A', 'DEDENT_T': '\u276B'})
    filename = I.choice('filename', [None, 'some/path/file.hy'])
    tree = I.new(m.HypertagAST, 'tree', filename=filename, parser=parser)
    q = I.str('quote')
    node = I.new(m.NODES.xvar_use, 'node', pos=(p, I.length(text)), fulltext=text, tree=tree, text=I.stub(lambda *a: q))
    cls = I.choice('error', [m.SyntaxErrorEx, m.NameErrorEx, m.TypeErrorEx, m.UndefinedTagEx])
    ex = I.new(cls, 'error')
    msg = I.str('msg')
    o = I.call(ParserError.__init__, ex, msg, node)
    I.check('no_exception', not o.raised)
    prefix = I.prefix(text, p)
    line = I.count(prefix, '\n')
    column = I.length(prefix) - I.rfind(prefix, '\n') + I.count(prefix, '\u2768') + I.count(prefix, '\u276A') - I.count(prefix, '\u2769') - I.count(prefix, '\u276B')
    where = " in 'some/path/file.hy', line " if filename else ' at line '
    I.check('message', I.eq(ex.args[0], msg + where + I.strof(line) + ', column ' + I.strof(column) + ' (' + q + ')'))

@contract('C17', 'nifty.parsing.Tree.node.__init__', 'nifty.parsing.ParsimoniousTree._rewriteNode', 'nifty.parsing.Tree.node.text', bounded='up to 3 children')
def node_position(I):
    "a node knows the part of the script it was made from; its children are those of the parse, in order"
    m = ast()
    text = I.str('script', 'ab\n ')
    p, q = I.int('start', lo=0), I.int('end', lo=0)
    I.assume(I.and_(p <= q, q <= I.length(text)))
    kinds = I.choice('children', [(), ('node',), ('none', 'node'), ('list', 'node'), ('node', 'list', 'none')])
    kids = [I.new(m.NODES.xnull, 'child%d' % i) for i in range(4)]
    rewritten, want = [], []
    for k in kinds:
        i = len(want)
        r = {'none': I.list([]), 'node': kids[i], 'list': I.list([kids[i], kids[i + 1]]) if i < 3 else I.list([])}[k]
        want += {'none': [], 'node': kids[i:i + 1], 'list': kids[i:i + 2]}[k]
        rewritten.append(r)
    asts = [I.new(Ref, 'part%d' % i, n=i) for i in range(len(kinds))]
    tree = I.new(m.HypertagAST, 'tree', text=text, rewrite=I.stub(lambda a: (I.event('rewrite', a.n), rewritten[a.n])[1]))
    part = I.new(Ref, 'part', start=p, end=q, expr_name='var_use', children=I.list(asts))
    node = I.run(m.NODES.xvar_use, tree, part)
    I.check('made_from', I.getattr(node, 'tree') is tree and I.getattr(node, 'type') == 'var_use')
    pos = I.getattr(node, 'pos')
    I.check('position', I.and_(I.eq(pos[0], p), I.eq(pos[1], q), I.eq(I.getattr(node, 'fulltext'), text)))
    ch = I.getattr(node, 'children')
    I.check('children', len(ch) == len(want) and all(a is b for a, b in zip(ch, want)))
    o = I.call(I.getattr(node, 'text'))
    s = I.prefix(I.suffix(text, p), q - p)
    I.check('text', (not o.raised) and I.eq(o.value, s))
    k = I.int('maxlen', lo=0)
    o = I.call(I.getattr(node, 'text'), k)
    I.check('text_start', (not o.raised) and I.eq(o.value, I.prefix(s, k) + '...' if I.truth(q - p > k) else s))

@contract(['C17', 'C08'], 'nifty.parsing.ParsimoniousTree._rewriteNode', 'nifty.util.flatten')
def node_children(I):
    "the children of a node are those made from the parts of its parse, in order, lists of nodes spliced; for any number of parts and of nodes"
    import hypertag.nifty.util as u
    m = ast()
    n = I.int('n', lo=0)
    p, q = I.int('start', lo=0), I.int('end', lo=0)
    kid = lambda i: I.elem('kid', i, bare(I, m.NODES.xnull))
    def spliced(i):
        if not I.concrete: return I.f('made', 'list', i)
        return I.elem('made', i, [bare(I, m.NODES.xnull) for _ in range(I.f('made_len', 'int', i) % 3)])
    many = lambda i: I.f('many', 'bool', i)
    def rewrite(a):
        i = I.getattr(a, 'index')
        I.event('rewrite', i)
        if I.truth(many(i)): return spliced(i)
        return kid(i)
    parts = I.seq('part', lambda i: I.elem('part', i, bare(I, Ref, index=i)), n)
    want = I.rec('want', 'list', I.list([]), lambda k, l: I.ite_list(many(k), I.seqcat(l, spliced(k)), lambda: I.seqcat(l, I.list([kid(k)]))))
    tr = I.rec('tr', 'val', I.nil, lambda k, t: I.push(t, I.ev('rewrite', k)))
    if not I.concrete: I.inner(u.flatten, lambda l: l)      # by induction: a list of nodes is left as it is
    tree = I.new(m.HypertagAST, 'tree', rewrite=I.stub(rewrite))
    part = I.new(Ref, 'parse', start=p, end=q, expr_name='var_use', children=parts)
    o = I.call(I.getattr(tree, '_rewriteNode'), part)
    I.check('no_exception', not o.raised, note=repr(o.exc))
    if o.raised: return
    pos, type, children = o.value
    I.check('position', I.and_(I.eq(pos[0], p), I.eq(pos[1], q)))
    I.check('type', type == 'var_use')
    I.check('each_part_once', I.same(I.trace(), tr(n)))
    I.check('children', I.items_eq(children, want(n)))
