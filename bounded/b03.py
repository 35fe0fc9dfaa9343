from .gen import *

def indent_ok(a, b): return a.startswith(b) or b.startswith(a)

@suite('C03', 'nesting', 2)
def nesting(r, size):
    "lines of tags with random indentation; oracle: a stack of indentations"
    n = r.choice([1, 2, 3, 5, 8, 12])
    lines = ['context $t']; cur = ''; used = []; stack = ['']
    bad = r.random() < .35
    kinds = [' ', '\t'] if r.random() < .5 else [' ']
    for i in range(n):
        k = r.random()
        if i == 0 or k < .35: ind = cur                                  # sibling
        elif k < .65: ind = cur + ''.join(r.choice(kinds) for _ in range(r.choice([1, 1, 2, 3, 4])))
        elif k < .9 or not bad: ind = r.choice(stack)
        else: ind = ''.join(r.choice([' ', '\t']) for _ in range(r.choice([0, 1, 2, 3, 4])))
        if r.random() < .25: lines += [r.choice(['', '', ' ', '\t', '   \t ', ind + '  ', '\u3000', ' \x0b', '\xa0 ']) for _ in range(r.choice([1, 1, 2, 3, 5]))]
        cur = ind
        stack = [s for s in stack if ind.startswith(s) and s != ind] + [ind]
        lines.append(ind + 'p id="n%d"' % (i + 1) + r.choice(['', '', ':']) + r.choice(['', '', '', '', ' ', '\t ', '  ', '\x0b', ' \u3000', '\xa0', '\x0c ']))
    if r.random() < .2: lines += [r.choice(['', '  ', '\t'])] * r.choice([1, 2])
    # what is to be read: the first incompatible line, or a line that is not aligned with any open block, or the tree
    expect = None; prev = ''; opened = []; tree = []; top = None
    for no, l in enumerate(lines, 1):
        if not l.strip(): continue
        ind = l[:len(l) - len(l.lstrip(' \t'))]
        if not indent_ok(ind, prev): expect = dict(error='IndentationError', line=no); break
        prev = ind
    if expect is None:
        path = [('', tree, None)]           # (indentation of the block's children, list of children)
        for no, l in enumerate(lines[1:], 2):
            if not l.strip(): continue
            ind = l[:len(l) - len(l.lstrip(' \t'))]
            node = [l.strip().split('"')[1], []]
            while len(path) > 1 and path[-1][0] != ind and not ind.startswith(path[-1][0] + ' ') and not ind.startswith(path[-1][0] + '\t'): path.pop()
            if path[-1][0] == ind: path[-1][1].append(node)
            elif path[-1][1] and path[-1][2] is None or True:
                kids = path[-1][1]
                last = kids[-1] if kids else None
                # deeper than the last open block: its children start here, unless it already has children at another depth
                if last is None or last[1]: expect = dict(error='SyntaxError', line=no); break
                last[1].append(node); path.append((ind, last[1], None))
    if expect is None: expect = dict(tree=tree)
    return dict(script='\n'.join(lines), expect=expect)

def check_nesting(case):
    from .b02 import read
    r = observe(lambda: runtime().render(case['script'], t=1))
    want = case['expect']
    if 'error' in want:
        if 'error' not in r: return 'expected %s at line %d, rendered %r' % (want['error'], want['line'], r['out'])
        if want['error'] not in r['error'] or want['error'] == 'SyntaxError' and 'IndentationError' in r['error']: return 'expected %s, raised %s: %s' % (want['error'], r['error'][0], r['msg'])
        import re
        nums = re.findall(r'\bline (\d+)', r['msg'])
        if str(want['line']) not in nums: return 'expected the error at line %d: %s' % (want['line'], r['msg'])
        return
    if 'error' in r: return 'raised %s: %s' % (r['error'][0], r['msg'])
    stack = [[None, []]]
    for e in read(r['out']):
        if e[0] == 'start':
            n = [dict(e[2]).get('id'), []]; stack[-1][1].append(n); stack.append(n)
        elif e[0] == 'end': stack.pop()
    if stack[0][1] != want['tree']: return 'nesting of elements %r, expected %r' % (stack[0][1], want['tree'])
SUITES['C03'][0] = SUITES['C03'][0][:3] + (check_nesting,)

@suite('C03', 'content')
def content(r, size):
    "every line of a verbatim block is preserved, with its relative indentation and the blank lines between; special whitespace is content"
    odd = ['\x0b', '\x0c', '\x1c', '\x1d', '\x85', '\u2028', '\u2029', '\u3000', '\xa0', '\u200b', '\ufeff', '\x00']
    def body(): 
        s = ''.join(r.choice(['a', 'b', 'xyz', ' ', '  ', '\t', '-', '%', '$', '{', '}', '|', ':', '&', '\u2768', '\u276a'] + odd) for _ in range(r.choice([1, 2, 3, 6])))
        s = s.lstrip(' \t').rstrip()                   # any other whitespace is content
        if r.random() < .12: s = r.choice('\x0b\x0c\x85\u2028\u2029\u3000\xa0') + (s or 'q')
        if s[-1:] in ('\x1c', '\x1d'): s += 'q'        # PyPy does not strip them consistently
        return s or 'q'
    ind = ''.join(r.choice([' ', ' ', '\t']) for _ in range(r.choice([1, 2, 3])))
    lines = []; out = []
    cur = ind
    first = body()
    for i in range(r.choice([1, 2, 3, 5])):
        b = body()
        if r.random() < .3: cur = ind if cur != ind else ind + r.choice([' ', '\t', '  '])
        if i and r.random() < .3:
            for _ in range(r.choice([1, 1, 2, 4])): lines.append(r.choice(['', '  ', ind, '\t'])); out.append('')
        lines.append(cur + b + r.choice(['', '', ' ', '\t'])); out.append(cur + b)
    script = '! ' + first + '\n' + '\n'.join(lines)
    # the margin shared by all lines is removed; the headline stands at column 2
    from .model import layout_text
    return dict(script=script, expect=dict(out=layout_text(1, ' ' + first + '\n' + '\n'.join(out))), helpers=False)

@suite('C03', 'linenumbers', .7)
def linenumbers(r, size):
    "an error in a line is reported at its number, whatever the indentation and the blank lines before"
    lines = ['p']; ind = ''
    for _ in range(r.choice([0, 1, 3, 6, 15])):
        if r.random() < .4: lines += [r.choice(['', ' ', '\t'])] * r.choice([1, 2])
        k = r.random()
        if k < .4: ind += r.choice([' ', '  ', '\t'])
        lines.append(ind + r.choice(['p', 'div id="x"', 'b | text', '| text', '-- comment', '! {', 'i:']))
        if not lines[-1].strip().startswith(('p', 'div', 'i')): lines.append(ind + 'p')
    lines.append(ind + 'p id={undefined_name}')
    no = len(lines)
    for _ in range(r.choice([0, 1, 2])): lines += [r.choice(['', 'p', 'div | x'])]
    return dict(script='\n'.join(lines), expect=dict(error='*', line=no))
def check_line(case):
    r = observe(lambda: runtime().render(case['script']))
    if 'error' not in r: return 'expected an error at line %d, rendered %r' % (case['expect']['line'], r['out'])
    import re
    m = re.search(r'\bline (\d+)', r['msg'])
    if not m or int(m.group(1)) != case['expect']['line']: return 'expected the error at line %d: %s: %s' % (case['expect']['line'], r['error'][0], r['msg'])
SUITES['C03'][2] = SUITES['C03'][2][:3] + (check_line,)
