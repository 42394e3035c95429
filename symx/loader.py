"""Loads the toolbox's modules from /repo's current source into a world where numpy and math are symbolic."""
import builtins
import os
import sys
import types
from . import npx
from .core import Sym, SymBool, Unsupported, C
from . import core, arr

REPO = os.environ.get('SYMX_REPO', '/repo')
PKG = 'general_robotics_toolbox'
SRC = os.path.join(REPO, 'src', PKG)

_code = {}


def _compile(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    c = _code.get(k)
    if c is None:
        with open(path, encoding='utf-8') as f:
            c = compile(f.read(), path, 'exec')
        _code[k] = c
    return c


def _sum(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


def _abs(x):
    return core.sabs(x) if isinstance(x, Sym) else abs(x)


def _minmax(fn, better):
    def f(*a, key=None, default=None):
        if len(a) == 1:
            a = list(a[0])
            if not a:
                if default is not None:
                    return default
                raise ValueError('%s() arg is an empty sequence' % fn)
        best = a[0]
        kb = key(best) if key else best
        for x in a[1:]:
            kx = key(x) if key else x
            if bool(better(kx, kb)):
                best, kb = x, kx
        if isinstance(best, Sym):
            core._guard(best)
        return best
    return f


def _sorted(it, key=None, reverse=False):
    l = list(it)
    ks = [key(x) for x in l] if key else l
    idx = []
    for i in range(len(l)):
        j = len(idx)
        while j > 0 and bool((ks[idx[j - 1]] < ks[i]) if reverse else (ks[i] < ks[idx[j - 1]])):
            j -= 1
        idx.insert(j, i)
    return [l[i] for i in idx]


def _pow(a, b, *m):
    return a ** b if not m else pow(a, b, *m)


def _round(x, n=None):
    if isinstance(x, Sym):
        r = core.sround(x, n or 0)
        return r
    return round(x) if n is None else round(x, n)


class World:
    """One import universe (fresh module state) for one path execution."""

    def __init__(self, extra=None):
        self.mods = {}
        self.extra = extra if extra is not None else {}
        self.post = {}
        b = dict(vars(builtins))
        b.update(__import__=self._import, float=npx.float_, sum=_sum, abs=_abs, min=_minmax('min', lambda x, y: x < y),
                 max=_minmax('max', lambda x, y: x > y), sorted=_sorted, pow=_pow, round=_round, print=lambda *a, **k: None)
        self.builtins = types.ModuleType('builtins')
        self.builtins.__dict__.update(b)

    def _find(self, name):
        rel = name.split('.')[1:]
        base = os.path.join(SRC, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py'), True
        if os.path.exists(base + '.py'):
            return base + '.py', False
        return None, False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        path, ispkg = self._find(name)
        if path is None:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rsplit('.', 1)[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins.__dict__
        self.mods[name] = m
        try:
            exec(_compile(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if '.' in name:
            parent, child = name.rsplit('.', 1)
            setattr(self.mods[parent], child, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or PKG
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - level + 1])
            name = base + ('.' + name if name else '')
        top = name.split('.')[0]
        if top == PKG:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(name + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods[PKG]
        if top in self.extra or name in self.extra:
            m = self.extra.get(name)
            if m is None:
                m = self.extra[top]
                for p in name.split('.')[1:]:
                    m = getattr(m, p)
            return m if fromlist else self.extra[top]
        if top == 'numpy':
            if name == 'numpy':
                return npx.NP
            if name == 'numpy.linalg':
                return npx.LA if fromlist else npx.NP
            if name == 'numpy.random':
                return npx.NP.random if fromlist else npx.NP
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if top == 'math':
            return npx.MATH
        if top == 'cmath' or top == 'scipy':
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        return builtins.__import__(name, globals, locals, fromlist, 0)
