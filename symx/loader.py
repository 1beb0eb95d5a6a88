"""Loads /repo's package twice: the real one (concrete replay) and a copy whose numpy/math/builtins are the symbolic
stand-ins.  Source is read from /repo/src on every run; nothing is edited."""
from __future__ import annotations
import sys, os, importlib, importlib.util, importlib.machinery, builtins
from . import shims, num as N

REPO = os.environ.get('FSC_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PKG = 'fock_state_circuit'

class Loaded: pass
_real = {}; _sym = {}
SHIMS = {}

def _is_pkg(n): return n == PKG or n.startswith(PKG + '.')

def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in SHIMS: return SHIMS[name]
        if name.startswith('numpy.'): return SHIMS['numpy']
        if _is_pkg(name):
            with_mode = swap('sym')
            try: return builtins.__import__(name, globals, locals, fromlist, level)
            finally: swap(with_mode)
    if level:
        with_mode = swap('sym')
        try: return builtins.__import__(name, globals, locals, fromlist, level)
        finally: swap(with_mode)
    return builtins.__import__(name, globals, locals, fromlist, level)

_mode = 'real'
def swap(mode):
    global _mode
    old = _mode
    if mode == old: return old
    store = _real if old == 'real' else _sym
    store.clear(); store.update({k: v for k, v in sys.modules.items() if _is_pkg(k)})
    for k in list(store): del sys.modules[k]
    sys.modules.update(_real if mode == 'real' else _sym)
    _mode = mode
    return old

class _Loader(importlib.machinery.SourceFileLoader):
    def exec_module(self, module):
        code = compile(self.get_data(self.path), self.path, 'exec', dont_inherit=True)
        module.__dict__['__builtins__'] = BUILTINS
        exec(code, module.__dict__)
class _Finder:
    def find_spec(self, name, path=None, target=None):
        if _mode != 'sym' or not _is_pkg(name): return None
        parts = name.split('.')
        base = os.path.join(SRC, *parts)
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            if os.path.exists(f):
                return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f), submodule_search_locations=[base])
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True); spec.submodule_search_locations = [base]
            return spec
        f = base + '.py'
        if os.path.exists(f): return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f))
        return None

BUILTINS = None
def load():
    global BUILTINS
    if _sym: return
    sys.dont_write_bytecode = True
    if SRC not in sys.path: sys.path.insert(0, SRC)
    importlib.import_module(PKG)
    m = shims.make_numpy(); m.__class__ = shims.NPShim
    mm = shims.make_math()
    SHIMS.update({'numpy': m, 'math': mm, 'cmath': shims.make_cmath(), 'random': shims.RandomStub()})
    BUILTINS = shims.make_builtins(); BUILTINS['__import__'] = _import
    sys.meta_path.insert(0, _Finder())
    swap('sym')
    importlib.import_module(PKG)
    swap('real')
    # deterministic randomness in the real copy as well (environment stub)
    for k, v in list(_sym.items()):
        pass
    import random
    REAL_RANDOM.update(stub=shims.RandomStub())
    for k, mod in sys.modules.items():
        if _is_pkg(k) and getattr(mod, 'random', None) is random: mod.random = REAL_RANDOM['stub']
REAL_RANDOM = {}
def package(mode):
    load()
    return (sys.modules if _mode == mode else (_real if mode == 'real' else _sym))[PKG]
def module(mode, name):
    load()
    return (sys.modules if _mode == mode else (_real if mode == 'real' else _sym))[name]
def random_stub(mode):
    load()
    return SHIMS['random'] if mode == 'sym' else REAL_RANDOM['stub']
