"Makes hypertag importable under the verifier's interpreter (CPython 3.12) and under PyPy (no-op there)."
import sys, os
sys.dont_write_bytecode = True
REPO_SRC = os.environ.get('VP_SRC', '/repo/src')      # VP_SRC: development only (mutation testing of the verifier)
def boot():
    import inspect
    if not hasattr(inspect, 'getargspec'):
        import collections
        A = collections.namedtuple('ArgSpec', 'args varargs keywords defaults')
        inspect.getargspec = lambda f: A(*inspect.getfullargspec(f)[:4])
    if REPO_SRC not in sys.path: sys.path.insert(0, REPO_SRC)
    site = '/opt/venv/lib/pypy3.9/site-packages'
    if sys.implementation.name != 'pypy' and site not in sys.path: sys.path.append(site)
    sys.setrecursionlimit(20000)
boot()
