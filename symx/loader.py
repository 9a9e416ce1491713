"""Executes the real modules under /repo/src with symbolic-aware stand-ins for their imports."""
import builtins, sys, types, os, math, importlib
import numpy as np
from . import core, npshim
from .core import SymReal, SymBool, Unsupported, s_sqrt, s_log, s_exp, s_cdf, s_ppf, Ctx, is_num
from .npshim import F, FloatShim, SArr, to_obj, wrap, vec, has_sym

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

STDLIB = {'warnings', 'itertools', 'typing', 'dataclasses', 'functools', 'os', 'sys', 'abc', 'collections', 'operator', 'enum', 'copy',
          'time', 'numbers', 'inspect', 'contextlib', 'types', '__future__', 'logging', 'string', 're', 'threading', 'concurrent', 'queue',
          'struct', 'json', 'pathlib', 'textwrap', 'heapq', 'bisect', 'weakref', 'platform', 'traceback', 'importlib'}


class RepoError(Exception):
    """the repository's module could not be loaded for a reason other than an import of a missing module"""


# ------------------------------------------------------------------ small stand-ins
def _m1(symf, real, dom=None):
    def f(x):
        if isinstance(x, SArr):
            if x.size != 1: raise TypeError("only length-1 arrays can be converted to Python scalars")
            x = x.item()
        if isinstance(x, SymReal):
            if dom is not None: dom(x)
            return symf(x)
        return real(x)
    return f


def _pos(x):
    if core.p_sign(x.p) == 1: return
    if bool(x <= 0): raise ValueError("math domain error")


def _nn(x):
    if core.p_nonneg(x.p): return
    if bool(x < 0): raise ValueError("math domain error")


def math_module():
    M = types.ModuleType('math')
    for n in dir(math):
        if not n.startswith('__'): setattr(M, n, getattr(math, n))
    def log(x, *base):
        r = _m1(s_log, math.log, _pos)(x)
        if base: return r / log(base[0])
        return r
    M.log = log
    M.log2 = lambda x: log(x) / math.log(2) if isinstance(x, SymReal) else math.log2(x)
    M.log10 = lambda x: log(x) / math.log(10) if isinstance(x, SymReal) else math.log10(x)
    M.log1p = lambda x: log(1 + x) if isinstance(x, SymReal) else math.log1p(x)
    M.expm1 = lambda x: s_exp(x) - 1.0 if isinstance(x, SymReal) else math.expm1(x)
    M.exp = _m1(s_exp, math.exp)
    M.sqrt = _m1(s_sqrt, math.sqrt, _nn)
    M.fabs = _m1(abs, math.fabs)
    M.floor = _m1(core.s_floor_int, math.floor)
    M.ceil = _m1(core.s_ceil_int, math.ceil)
    M.trunc = _m1(core.s_trunc, math.trunc)
    M.isnan = _m1(lambda x: False, math.isnan); M.isinf = _m1(lambda x: False, math.isinf); M.isfinite = _m1(lambda x: True, math.isfinite)
    M.pow = lambda a, b: core.s_pow(a, b) if has_sym((a, b)) else math.pow(a, b)
    M.fsum = lambda xs: npshim.ssum([F(0.0)] + list(xs))
    M.prod = lambda xs, start=1: _prod(xs, start)
    M.hypot = lambda *a: s_sqrt(npshim.ssum([x * x for x in a])) if has_sym(a) else math.hypot(*a)
    M.erf = _m1(lambda x: 2.0 * s_cdf(x * math.sqrt(2)) - 1.0, math.erf)
    M.erfc = _m1(lambda x: 2.0 * s_cdf(-x * math.sqrt(2)), math.erfc)
    M.copysign = lambda a, b: npshim.e_copysign(a, b) if has_sym((a, b)) else math.copysign(a, b)
    M.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(abs(a - b) <= core.s_max(rel_tol * core.s_max(abs(a), abs(b)), abs_tol)) if has_sym((a, b)) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    return M


def _prod(xs, start=1):
    r = start
    for x in xs: r = r * x
    return r


def _vecf(symf, real):
    """element-wise function accepting scalars/arrays"""
    def f(x):
        if not has_sym(x): return _w(real(np.asarray(x, dtype=float) if isinstance(x, (list, tuple)) else x))
        return wrap(vec(lambda v: symf(v) if isinstance(v, SymReal) else F(real(v)), [to_obj(x)]))
    return f


def _w(r):
    return npshim._tofloat_result(r)


class NormShim:
    """scipy.stats.norm"""
    def __init__(self):
        from scipy.stats import norm
        self._n = norm
    def _std(self, x, loc, scale):
        if is_num(loc) and loc == 0 and is_num(scale) and scale == 1: return x
        return (npshim.c_asarray(x) - loc) / scale if isinstance(x, (list, tuple, np.ndarray)) else (x - loc) / scale
    def cdf(self, x, loc=0, scale=1): return _vecf(s_cdf, self._n.cdf)(self._std(x, loc, scale))
    def sf(self, x, loc=0, scale=1): return 1.0 - self.cdf(x, loc, scale)
    def pdf(self, x, loc=0, scale=1):
        r = _vecf(lambda z: s_exp(-(z * z) / 2) / math.sqrt(2 * math.pi), self._n.pdf)(self._std(x, loc, scale))
        return r if is_num(scale) and scale == 1 else r / scale
    def ppf(self, q, loc=0, scale=1):
        r = _vecf(s_ppf, self._n.ppf)(q)
        return r if is_num(loc) and loc == 0 and is_num(scale) and scale == 1 else r * scale + loc
    def isf(self, q, loc=0, scale=1): return self.ppf(1.0 - q, loc, scale)
    def logpdf(self, x, loc=0, scale=1):
        z = self._std(x, loc, scale)
        z = npshim.c_asarray(z) if isinstance(z, (list, tuple)) else z
        return -z * z / 2 - 0.5 * math.log(2 * math.pi) - (s_log(scale) if isinstance(scale, SymReal) else np.log(scale))
    def logcdf(self, x, loc=0, scale=1):
        return _vecf(s_log, np.log)(self.cdf(x, loc, scale))
    def __getattr__(self, n): raise Unsupported(f"scipy.stats.norm.{n}")
    def __call__(self, loc=0, scale=1):
        o = self
        class Frozen:
            cdf = lambda s, x: o.cdf(x, loc, scale)
            pdf = lambda s, x: o.pdf(x, loc, scale)
            ppf = lambda s, x: o.ppf(x, loc, scale)
            sf = lambda s, x: o.sf(x, loc, scale)
        return Frozen()


class NormalDistShim:
    def __init__(self, mu=0.0, sigma=1.0): self.mean = self.mu = mu; self.stdev = self.sigma = sigma
    def inv_cdf(self, p):
        if isinstance(p, SymReal):
            if core.var_range(p.p)[0] < 0 or core.var_range(p.p)[1] > 1:
                if bool(p <= 0) or bool(p >= 1): raise ValueError('p must be in the range 0.0 < p < 1.0')
            return s_ppf(p) * self.sigma + self.mu
        from statistics import NormalDist
        return NormalDist(self.mu, self.sigma).inv_cdf(float(p))
    def cdf(self, x): return s_cdf((x - self.mu) / self.sigma)
    def pdf(self, x):
        z = (x - self.mu) / self.sigma
        return s_exp(-(z * z) / 2) / (math.sqrt(2 * math.pi) * self.sigma)


class DecimalShim:
    def __new__(cls, x='0', *a):
        import decimal
        if isinstance(x, SymReal): return SymDecimal(x)
        if isinstance(x, SymDecimal): return x
        return decimal.Decimal(x, *a)


class SymDecimal:
    def __init__(self, x): self.x = x
    def to_integral_value(self, rounding=None, context=None):
        import decimal as d
        x = self.x
        fl = core.s_floor_int
        if rounding in (None, d.ROUND_HALF_EVEN): n = npshim.s_round_int(x)
        elif rounding == d.ROUND_HALF_UP: n = fl(x + 0.5) if bool(x >= 0) else -fl(-x + 0.5)
        elif rounding == d.ROUND_HALF_DOWN: n = -fl(-x + 0.5) if bool(x >= 0) else fl(x + 0.5)
        elif rounding == d.ROUND_FLOOR: n = fl(x)
        elif rounding == d.ROUND_CEILING: n = -fl(-x)
        elif rounding == d.ROUND_DOWN: n = core.s_trunc(x)
        elif rounding == d.ROUND_UP: n = -fl(-x) if bool(x >= 0) else fl(x)
        else: raise Unsupported(f"decimal rounding {rounding}")
        return d.Decimal(n)
    to_integral = to_integral_value
    def quantize(self, exp, rounding=None, context=None):
        import decimal as d
        if d.Decimal(exp) == 1: return self.to_integral_value(rounding)
        raise Unsupported("quantize")
    def __int__(self): return core.s_trunc(self.x)
    def __mul__(self, o): return SymDecimal(self.x * (o.x if isinstance(o, SymDecimal) else float(o)))
    __rmul__ = __mul__
    def __add__(self, o): return SymDecimal(self.x + (o.x if isinstance(o, SymDecimal) else float(o)))
    __radd__ = __add__


def opaque(name):
    """module whose use is outside the encoding"""
    M = types.ModuleType(name)
    def ga(n):
        if n.startswith('__'): raise AttributeError(n)
        def f(*a, **k): raise Unsupported(f"{name}.{n}")
        f.__name__ = n
        return f
    M.__getattr__ = ga
    return M


class Loader:
    def __init__(self, ext=None, random=None, overrides=None, ext_enabled=True):
        """ext: dict module name -> module object for compiled extensions; random: module object for numpy.random"""
        self.mods = {}
        self.ext = ext or {}
        self.ext_enabled = ext_enabled
        self.loaded_files = {}
        self.random = random if random is not None else random_guard()
        self.np = npshim.np_proxy(self.random)
        self.np.random = self.random
        self.overrides = overrides or {}
        self.pandas = None
        b = dict(vars(builtins))
        b['__import__'] = self.imp
        b['float'] = FloatShim
        b['round'] = self._round
        b['print'] = lambda *a, **k: None
        b['sum'] = _bsum
        b['divmod'] = lambda x, y: ((x // y), x - (x // y) * y) if has_sym((x, y)) else divmod(x, y)
        b['pow'] = lambda x, y, *m: core.s_pow(x, y) if has_sym((x, y)) else pow(x, y, *m)
        self.builtins = b
        self._std = {}

    @staticmethod
    def _round(x, n=None):
        if isinstance(x, SymReal):
            if n in (None, 0):
                r = npshim.s_round_int(x)
                return r if n is None else F(r)
            raise Unsupported("round to digits")
        return builtins.round(x, n) if n is not None else builtins.round(x)

    # -- stand-in modules
    def std(self, name):
        if name in self._std: return self._std[name]
        m = None
        if name in self.overrides: m = self.overrides[name]
        elif name == 'numpy': m = self.np
        elif name == 'numpy.linalg': m = self.np.linalg
        elif name == 'numpy.fft': m = self.np.fft
        elif name == 'numpy.random': m = self.random
        elif name == 'numpy.typing': m = importlib.import_module(name)
        elif name == 'math': m = math_module()
        elif name == 'cmath': m = opaque(name)
        elif name == 'random': m = guard_module('random')
        elif name == 'statistics':
            m = types.ModuleType(name); m.NormalDist = NormalDistShim
            m.mean = lambda xs: npshim.f_mean(npshim.c_array(list(xs))); m.fmean = m.mean
            m.pstdev = lambda xs: npshim.f_std(npshim.c_array(list(xs))); m.stdev = lambda xs: npshim.f_std(npshim.c_array(list(xs)), ddof=1)
            m.median = lambda xs: npshim.f_median(npshim.c_array(list(xs)))
        elif name == 'decimal':
            import decimal
            m = types.ModuleType(name)
            for n in dir(decimal):
                if not n.startswith('__'): setattr(m, n, getattr(decimal, n))
            m.Decimal = DecimalShim
        elif name == 'scipy': m = types.ModuleType(name); m.__path__ = []; m.__getattr__ = lambda n: self.std('scipy.' + n)
        elif name == 'scipy.stats': m = opaque(name); m.norm = NormShim(); m.random = None
        elif name == 'scipy.optimize':
            m = opaque(name)
            m.OptimizeResult = __import__('scipy.optimize', fromlist=['OptimizeResult']).OptimizeResult
        elif name == 'scipy.special':
            m = opaque(name)
            nm = NormShim()
            m.ndtr = nm.cdf; m.ndtri = nm.ppf
            m.erf = lambda x: 2.0 * nm.cdf((npshim.c_asarray(x) if isinstance(x, (list, np.ndarray)) else x) * math.sqrt(2)) - 1.0
            m.logsumexp = lambda a, axis=None, **k: np.log(npshim.reduce_(np.add, np.exp(npshim.c_asarray(a)), axis=axis)) if has_sym(a) else __import__('scipy.special', fromlist=['x']).logsumexp(a, axis=axis, **k)
            m.xlogy = lambda x, y: x * np.log(y)
        elif name == 'scipy.linalg':
            m = opaque(name)
            for n in ('inv', 'solve', 'cholesky', 'det', 'eigvalsh', 'eigvals', 'lstsq', 'eigh'): setattr(m, n, getattr(self.np.linalg, n))
            m.cholesky = lambda a, lower=False, **k: npshim.f_cholesky(a) if lower else npshim.f_cholesky(a).T
        elif name in ('pandas',): m = pandas_module()
        elif name.split('.')[0] in STDLIB: m = importlib.import_module(name)
        elif name.split('.')[0] == 'matplotlib':
            raise ModuleNotFoundError("No module named 'matplotlib'", name='matplotlib')
        elif name.split('.')[0] in ('numpy', 'scipy', 'arch', 'sklearn', 'statsmodels'):
            m = opaque(name)
        else:
            # anything else: the real import (raises ModuleNotFoundError when it is missing)
            m = importlib.import_module(name)
        self._std[name] = m
        return m

    # -- import protocol
    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            parts = pkg.split('.')
            if level > 1: parts = parts[:-(level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        if name == 'frds' or name.startswith('frds.'):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f == '*': continue
                    if not hasattr(m, f):
                        try: setattr(m, f, self.load(name + '.' + f))
                        except ModuleNotFoundError as e:
                            if getattr(e, 'name', None) == name + '.' + f:
                                raise ImportError(f"cannot import name {f!r} from {name!r}", name=name) from None
                            raise
                return m
            return self.load('frds')
        if name == '__future__' or name.split('.')[0] in ('typing',): return builtins.__import__(name, None, None, fromlist, 0)
        m = self.std(name)
        if fromlist:
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    try: setattr(m, f, self.std(name + '.' + f))
                    except (ImportError, ModuleNotFoundError): raise ImportError(f"cannot import name {f!r} from {name!r}", name=name) from None
            return m
        if '.' in name:
            top = self.std(name.split('.')[0])
            o = top
            for i, p in enumerate(name.split('.')[1:], 2):
                sub = self.std('.'.join(name.split('.')[:i]))
                try: setattr(o, p, sub)
                except Exception: pass
                o = sub
            return top
        return m

    def load(self, name):
        if name in self.mods: return self.mods[name]
        if '.' in name:
            parent = name.rpartition('.')[0]
            self.load(parent)
            if name in self.mods: return self.mods[name]
        if name in self.overrides:
            m = self.overrides[name]
            self._link(name, m)
            return m
        rel = name.replace('.', '/')
        d = os.path.join(SRC, rel)
        if name.rsplit('.', 1)[-1].endswith('_ext') or name in self.ext or self._is_ext(name):
            if name in self.ext and self.ext_enabled:
                m = self.ext[name]
                if callable(m) and not isinstance(m, types.ModuleType): m = m()
                self._link(name, m)
                return m
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        if os.path.isdir(d) and os.path.isfile(os.path.join(d, '__init__.py')):
            path = os.path.join(d, '__init__.py'); pkg = True
        elif os.path.isfile(d + '.py'): path = d + '.py'; pkg = False
        elif os.path.isdir(d):
            m = types.ModuleType(name); m.__path__ = [d]
            self._link(name, m); return m
        else:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg: m.__path__ = [d]
        m.__dict__['__builtins__'] = self.builtins
        self._link(name, m)
        src = open(path, encoding='utf-8').read()
        try:
            code = compile(src, path, 'exec')
            self.loaded_files[path] = name
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        return m

    def _is_ext(self, name):
        last = name.rsplit('.', 1)[-1]
        return last in ('utils_ext', 'measures_ext', 'isolation_forest_ext', 'iforest_ext')

    def _link(self, name, m):
        self.mods[name] = m
        if '.' in name:
            p, _, c = name.rpartition('.')
            if p in self.mods: setattr(self.mods[p], c, m)


def _bsum(xs, start=0):
    xs = list(xs) if not isinstance(xs, np.ndarray) else [xs[i] for i in range(len(xs))]
    if any(isinstance(x, SymReal) for x in xs) and all(isinstance(x, (SymReal, int, float, np.number)) for x in xs):
        return npshim.ssum([start] + xs)
    return builtins.sum(xs, start)


class GlobalRandomUse(Exception):
    """code drew from or changed a process-global random generator"""


def guard_module(name):
    m = types.ModuleType(name)
    def ga(n):
        if n.startswith('__'): raise AttributeError(n)
        def f(*a, **k): raise GlobalRandomUse(f"{name}.{n}")
        return f
    m.__getattr__ = ga
    return m


def random_guard():
    """numpy.random where every global-state function is a violation; generator classes are supplied by the harness"""
    return guard_module('numpy.random')


def pandas_module():
    import pandas as pd
    return pd
