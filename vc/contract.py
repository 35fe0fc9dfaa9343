"Registry of contracts (proof harnesses). A contract is a function of the API object I."
REGISTRY = []
class Contract:
    def __init__(self, prop, name, targets, fn, bounded=False, budget=120):
        self.prop, self.name, self.targets, self.fn, self.budget = prop, name, targets, fn, budget
        self.bounded = bounded          # the harness itself fixes shapes: its obligations are labelled bounded
        self.module = fn.__module__
    @property
    def id(self): return '%s.%s' % (self.prop, self.name)
def contract(prop, *targets, name=None, bounded=False, budget=120):
    def deco(fn):
        props = prop if isinstance(prop, (list, tuple)) else [prop]
        for p in props: REGISTRY.append(Contract(p, name or fn.__name__, targets, fn, bounded, budget))
        return fn
    return deco
