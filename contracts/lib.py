"Helpers shared by the contracts. Python 3.9 compatible: contracts also run concretely, under PyPy, against the real code."
def ast():
    import hypertag.core.ast as m
    return m
def nodes(): return ast().NODES
def State():
    from hypertag.core.structs import State as S
    return S
def domm():
    import hypertag.core.dom as m
    return m
def bare(I, cls, **attrs):
    obj = cls.__new__(cls)
    obj.__dict__.update(attrs)
    return obj
def is_stub_error(I, exc, label, index=None):
    if exc is None or getattr(exc, 'label', None) != label: return False
    return True if index is None else I.eq(exc.index, index)
def ok(I, o, v): return (not o.raised) and I.same(o.value, v)
def node_base():
    from hypertag.nifty.parsing import Tree
    return Tree.node
def blames(I, exc, node):
    "the error is reported at that node of the script"
    if I.concrete: return getattr(exc, 'node', None) is node
    a = getattr(exc, 'hargs', None) or ()
    return len(a) > 1 and a[1] is node
def place(I, cls, _name=None, **kw):
    "a node of a script, as far as errors are concerned: text and position"
    return I.new(cls, _name, pos=None, text=I.stub(lambda *a: ''), fulltext='', tree=kw.pop('tree', None), **kw)
def message(I, exc):
    "the message an error was made with"
    if I.concrete: return str(exc)
    a = getattr(exc, 'hargs', None) or ('',)
    return a[0]
def located(I, o, node):
    "C17: the error is reported at that node"
    if I.prop == 'C17': I.check('reported_at_its_element', blames(I, o.exc, node))
