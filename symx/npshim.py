"""numpy on symbolic reals.

SArr is an ndarray subclass (object dtype) whose elements are np.float64 or SymReal and whose
Python-visible dtype is float64.  ufuncs and array functions on it are routed to the element-wise
semantics below; anything that is not modelled raises Unsupported.
"""
import math, itertools
import numpy as np
from . import core
from .core import (SymReal, SymBool, Unsupported, UninitError, Ctx, is_num, s_div, s_pow, s_sqrt,
                   s_log, s_exp, s_cdf, s_ppf, s_max, s_min, s_fn, p_sign, mk)

F = np.float64
_objdt = np.dtype(object)
_rawdtype = np.ndarray.dtype.__get__


class Uninit:
    """content of np.empty"""
    __slots__ = ()
    def _bad(self, *a, **k): raise UninitError("use of uninitialised array memory")
    for _n in ('add radd sub rsub mul rmul truediv rtruediv pow rpow lt le gt ge eq ne float int bool abs neg '
               'floordiv rfloordiv mod rmod index round').split():
        locals()['__%s__' % _n] = _bad
    __array_ufunc__ = _bad
    __hash__ = object.__hash__
    def __repr__(self): return '<uninit>'
    sqrt = log = exp = _bad


UNINIT = Uninit()


def is_sym(x): return isinstance(x, (SymReal, SymBool))


class SArr(np.ndarray):
    __array_priority__ = 500

    @property
    def dtype(self):
        d = _rawdtype(self)
        return np.dtype(np.float64) if d == _objdt else d

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return array_function(func, types, args, kw)

    def __getitem__(self, k):
        k = _idx(k)
        r = np.ndarray.__getitem__(self, k)
        return r

    def __setitem__(self, k, v):
        k = _idx(k)
        if isinstance(v, SymBool): v = F(bool(v))
        if isinstance(v, (SymReal, Uninit)): pass
        elif not isinstance(v, np.ndarray) or _rawdtype(v) != _objdt:
            if v is None: v = F('nan')
            v = to_obj(v)
        elif isinstance(v, SArr): v = v.view(np.ndarray)
        if isinstance(v, np.ndarray) and v.ndim == 0: v = v[()]
        np.ndarray.__setitem__(self.view(np.ndarray), k, v)

    # numeric methods
    def sum(self, axis=None, dtype=None, out=None, **k): return f_sum(self, axis=axis, out=out, **k)
    def prod(self, axis=None, dtype=None, out=None, **k): return _store(out, reduce_(np.multiply, self, axis=axis, **k))
    def mean(self, axis=None, dtype=None, out=None, **k): return _store(out, f_mean(self, axis=axis, **k))
    def var(self, axis=None, dtype=None, out=None, ddof=0, **k): return _store(out, f_var(self, axis=axis, ddof=ddof, **k))
    def std(self, axis=None, dtype=None, out=None, ddof=0, **k): return _store(out, f_std(self, axis=axis, ddof=ddof, **k))
    def max(self, axis=None, out=None, **k): return _store(out, reduce_(np.maximum, self, axis=axis, **k))
    def min(self, axis=None, out=None, **k): return _store(out, reduce_(np.minimum, self, axis=axis, **k))
    def ptp(self, axis=None, **k): return self.max(axis) - self.min(axis)
    def clip(self, min=None, max=None, out=None, **k): return f_clip(self, min, max, out=out)
    def dot(self, o, out=None): return _store(out, f_dot(self, o))
    def cumsum(self, axis=None, dtype=None, out=None, **k): return _store(out, accumulate_(np.add, self, axis))
    def cumprod(self, axis=None, dtype=None, out=None, **k): return _store(out, accumulate_(np.multiply, self, axis))
    def any(self, axis=None, **k): return f_bool(self).any(axis, **k)
    def all(self, axis=None, **k): return f_bool(self).all(axis, **k)
    def argmax(self, axis=None, **k): return plain(self).argmax(axis)
    def argmin(self, axis=None, **k): return plain(self).argmin(axis)
    def argsort(self, axis=-1, **k): return plain(self).argsort(axis, kind='stable')
    def sort(self, axis=-1, **k):
        b = np.sort(plain(self), axis=axis, kind='stable')
        self.view(np.ndarray)[...] = b
    def trace(self, *a, **k): return wrap(plain(self).trace(*a, **k))
    def nonzero(self): return f_bool(self).nonzero()
    def searchsorted(self, v, side='left', sorter=None): return plain(self).searchsorted(_objarg(v), side)
    def round(self, *a, **k): raise Unsupported("round")
    def tolist(self): return plain(self).tolist()
    def conj(self): return self
    def fill(self, v): self[...] = v
    def put(self, ix, v, **k): f_put(self, ix, v)
    def itemset(self, *a): self[a[0] if len(a) == 2 else a[:-1]] = a[-1]
    def partition(self, kth, axis=-1, **k): self.sort(axis)
    def byteswap(self, *a, **k): raise Unsupported('byteswap')
    def resize(self, *a, **k): raise Unsupported('resize in place')
    def item(self, *a): return plain(self).item(*a)
    def __matmul__(self, o): return f_matmul(self, o)
    def __rmatmul__(self, o): return f_matmul(o, self)
    def __imatmul__(self, o): raise Unsupported('imatmul')
    def __bool__(self):
        if self.size != 1: raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.item())
    def __float__(self): raise Unsupported("float() of symbolic array")

    def astype(self, t, *a, **k):
        d = dtype_of(t)
        if d is None or d.kind in 'fO': return self.copy()
        if d.kind == 'b': return f_bool(self)
        if d.kind in 'iu':
            o = plain(self); r = np.empty(o.shape, d)
            for i in np.ndindex(*o.shape): r[i] = core.s_trunc(o[i])
            return r
        raise Unsupported(f"astype {t}")


def _idx(k):
    """index with float/object elements converted"""
    if isinstance(k, tuple): return tuple(_idx1(i) for i in k)
    return _idx1(k)


def _idx1(i):
    if isinstance(i, SArr):
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(i, SymBool): return np.bool_(bool(i))
    return i


def plain(x):
    """ndarray view with object dtype and no subclass"""
    if isinstance(x, SArr): return x.view(np.ndarray)
    return to_obj(x)


def to_obj(x):
    """object ndarray with np.float64 for floats; ints/bools stay as such"""
    if isinstance(x, SArr): return x.view(np.ndarray)
    if isinstance(x, (SymReal, SymBool, Uninit)):
        b = np.empty((), object); b[()] = x
        return b
    if isinstance(x, np.ndarray):
        if x.dtype == object: return x
        if x.dtype.kind in 'f':
            r = np.empty(x.shape, object)
            if x.ndim == 0: r[()] = F(x.item())
            else:
                fl = r.reshape(-1)
                for n, v in enumerate(x.reshape(-1)): fl[n] = F(v)
                r = fl.reshape(x.shape)
            return r
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        return _fromlist(x)
    if hasattr(x, '__array__') and not isinstance(x, np.generic):
        return to_obj(x.__array__())
    b = np.empty((), object)
    b[()] = F(x) if isinstance(x, (float, np.floating)) else (x.item() if isinstance(x, np.generic) else x)
    return b


def _fromlist(x):
    items = [to_obj(i) for i in x]
    if not items: return np.empty((0,), object)
    sh = items[0].shape
    if any(i.shape != sh for i in items):
        raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
    r = np.empty((len(items),) + sh, object)
    for n, i in enumerate(items):
        if sh: r[n] = i
        else: r[n] = i[()]
    return r


def has_sym(x):
    if isinstance(x, (SymReal, SymBool, SArr)): return True
    if isinstance(x, (list, tuple)): return any(has_sym(i) for i in x)
    if isinstance(x, np.ndarray) and x.dtype == object: return True
    return False


def wrap(r):
    """object ndarray -> SArr, 0-d -> element"""
    if isinstance(r, np.ndarray):
        if r.ndim == 0: return r[()]
        if _rawdtype(r) == _objdt: return r.view(SArr)
        return r
    return r


def wrap_keep(r):
    if isinstance(r, np.ndarray) and _rawdtype(r) == _objdt: return r.view(SArr)
    return r


# ------------------------------------------------------------------ element functions
def num(uf):
    def f(*xs):
        return uf(*xs)
    return f


def _chk(*xs):
    for x in xs:
        if isinstance(x, Uninit): raise UninitError("use of uninitialised array memory")
        if isinstance(x, complex) and not isinstance(x, float): pass


def lift(uf, sf):
    def f(*xs):
        s = False
        ys = []
        for x in xs:
            if isinstance(x, SymReal): s = True
            elif isinstance(x, SymBool): x = bool(x)
            elif isinstance(x, Uninit): raise UninitError("use of uninitialised array memory")
            elif isinstance(x, SymComplex): return sf(*xs)
            ys.append(x)
        if s: return sf(*[float(y) if isinstance(y, np.floating) else (int(y) if isinstance(y, np.integer) else (float(y) if isinstance(y, np.bool_) else y)) for y in ys])
        return uf(*ys)
    return f


def _f(x): return x if isinstance(x, SymReal) else F(x)


def e_abs(x): return abs(x)
def e_sign(x):
    if bool(x > 0): return F(1.0)
    if bool(x < 0): return F(-1.0)
    return F(0.0)
def e_pow(a, b): return s_pow(a, b)
def e_floor(x): return F(core.s_floor_int(x))
def e_ceil(x): return F(core.s_ceil_int(x))
def e_rint(x): return F(s_round_int(x))
def e_trunc(x): return F(core.s_trunc(x))
def e_div(a, b):
    if isinstance(b, SymReal): return s_div(a, b)
    return a / b
def e_fmax(a, b):
    if is_num(a) and a != a: return b
    if is_num(b) and b != b: return a
    return s_max(a, b)
def e_fmin(a, b):
    if is_num(a) and a != a: return b
    if is_num(b) and b != b: return a
    return s_min(a, b)
def e_fdiv(a, b): return e_floor(e_div(a, b))
def e_mod(a, b): return a - e_fdiv(a, b) * b
def e_hypot(a, b): return s_sqrt(a * a + b * b)
def e_heaviside(x, h):
    if bool(x > 0): return F(1.0)
    if bool(x < 0): return F(0.0)
    return h
def e_logaddexp(a, b): return s_log(s_exp(a) + s_exp(b))
def e_copysign(a, b):
    a = abs(a)
    return -a if bool(b < 0) else a


def s_round_int(x):
    """round half to even"""
    if not isinstance(x, SymReal): return int(np.rint(x))
    n = core.s_floor_int(x + 0.5)
    if n % 2 and bool(x + 0.5 == n): return n - 1
    return n


NUMF = {
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b,
    'true_divide': e_div, 'divide': e_div, 'power': e_pow, 'float_power': e_pow,
    'negative': lambda a: -a, 'positive': lambda a: a, 'absolute': e_abs, 'fabs': e_abs, 'abs': e_abs,
    'sqrt': s_sqrt, 'log': s_log, 'exp': s_exp, 'square': lambda a: a * a,
    'reciprocal': lambda a: e_div(F(1.0), a), 'log1p': lambda a: s_log(1.0 + a), 'expm1': lambda a: s_exp(a) - 1.0,
    'log2': lambda a: s_log(a) / math.log(2), 'log10': lambda a: s_log(a) / math.log(10),
    'exp2': lambda a: s_exp(a * math.log(2)), 'maximum': s_max, 'minimum': s_min, 'fmax': e_fmax, 'fmin': e_fmin,
    'floor': e_floor, 'ceil': e_ceil, 'rint': e_rint, 'trunc': e_trunc, 'sign': e_sign,
    'floor_divide': e_fdiv, 'remainder': e_mod, 'mod': e_mod, 'fmod': None, 'hypot': e_hypot,
    'heaviside': e_heaviside, 'logaddexp': e_logaddexp, 'copysign': e_copysign, 'conjugate': lambda a: a,
    'cbrt': None,
}
BOOLF = {
    'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b, 'greater': lambda a, b: a > b,
    'greater_equal': lambda a, b: a >= b, 'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
    'isnan': lambda a: False, 'isinf': lambda a: False, 'isfinite': lambda a: True,
    'logical_and': lambda a, b: bool(a) and bool(b), 'logical_or': lambda a, b: bool(a) or bool(b),
    'logical_not': lambda a: core.s_not(a != 0) if isinstance(a, SymReal) else not a,
    'logical_xor': lambda a, b: bool(a) ^ bool(b), 'signbit': lambda a: a < 0,
    'bitwise_and': lambda a, b: bool(a) and bool(b), 'bitwise_or': lambda a, b: bool(a) or bool(b),
    'invert': lambda a: not bool(a),
}
_cache = {}


def elem(ufunc):
    """(element function, 'num'|'bool')"""
    n = ufunc.__name__
    if n in _cache: return _cache[n]
    if n in NUMF and NUMF[n] is not None:
        uf = ufunc
        def base(*xs, uf=uf):
            return uf(*[F(x) if isinstance(x, (bool, int, float)) else x for x in xs])
        r = (lift(base, NUMF[n]), 'num')
    elif n in BOOLF:
        r = (lift(lambda *xs, uf=ufunc: bool(uf(*xs)), BOOLF[n]), 'bool')
    else:
        raise Unsupported(f"numpy function {n} on symbolic values")
    _cache[n] = r
    return r


def vec(f, arrs):
    """apply f element-wise with broadcasting over object arrays -> object ndarray (maybe 0-d)"""
    if all(a.ndim == 0 for a in arrs):
        r = np.empty((), object); r[()] = f(*[a[()] for a in arrs])
        return r
    bs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    sh = bs[0].shape
    out = np.empty(sh, object)
    of = out.reshape(-1)
    for n, t in enumerate(zip(*[b.flat for b in bs])): of[n] = f(*t)
    return of.reshape(sh)


def array_ufunc(ufunc, method, inputs, kw):
    kw = dict(kw)
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    kw.pop('casting', None); kw.pop('order', None); kw.pop('subok', None)
    dt = kw.pop('dtype', None)
    if any(isinstance(i, SymBool) for i in inputs) or True:
        inputs = tuple(np.bool_(bool(i)) if isinstance(i, SymBool) else i for i in inputs)
    if isinstance(out, tuple): out = out[0]
    if ufunc.__name__ == 'matmul' and method == '__call__':
        return _store(out, f_matmul(*inputs))
    f, kind = elem(ufunc)
    if method == '__call__':
        arrs = []
        for i in inputs:
            if isinstance(i, (str, type(None))) or not (is_num(i) or isinstance(i, (SymReal, np.ndarray, list, tuple, complex)) or hasattr(i, '__array__') or isinstance(i, Uninit)):
                return NotImplemented
            arrs.append(to_obj(i))
        if where is not True:
            w = np.broadcast_to(np.asarray(where), np.broadcast(*arrs).shape) if len(arrs) > 1 else np.broadcast_to(where, arrs[0].shape)
            if out is None:
                o = np.empty(w.shape, object); o[...] = UNINIT; out = o.view(SArr)
            bs = np.broadcast_arrays(*arrs)
            po = out.view(np.ndarray)
            for ix in np.ndindex(*w.shape):
                if w[ix]: po[ix] = f(*[b[ix] for b in bs])
            return out
        r = vec(f, arrs)
        if kind == 'bool':
            if r.ndim == 0:
                return _store(out, r[()] if isinstance(r[()], SymBool) else np.bool_(r[()]))
            b = np.empty(r.shape, bool)
            for ix in np.ndindex(*r.shape): b[ix] = bool(r[ix])
            return _store(out, b)
        return _store(out, wrap(r))
    if method == 'reduce':
        a = inputs[0]
        axis = kw.pop('axis', 0) if len(inputs) < 2 else inputs[1]
        return _store(out, reduce_(ufunc, a, axis=axis, where=where, **kw))
    if method == 'accumulate':
        ax = kw.pop('axis', 0) if len(inputs) < 2 else inputs[1]
        return _store(out, accumulate_(ufunc, inputs[0], ax))
    if method == 'outer':
        a, b = map(to_obj, inputs)
        return wrap(array_ufunc(ufunc, '__call__', (a.reshape(a.shape + (1,) * b.ndim).view(SArr), b.view(SArr)), {}))
    if method == 'at':
        a, ix = inputs[0], inputs[1]
        if not isinstance(a, SArr): raise Unsupported('ufunc.at on a float array')
        p = a.view(np.ndarray)
        if len(inputs) == 2:
            for j in np.asarray(ix).reshape(-1): p[j] = f(p[j])
        else:
            vs = to_obj(inputs[2])
            if isinstance(ix, tuple):
                ixs = list(zip(*[np.asarray(t).reshape(-1) for t in ix]))
            else: ixs = list(np.asarray(ix).reshape(-1))
            vs = np.broadcast_to(vs, (len(ixs),))
            for j, v in zip(ixs, vs): p[j] = f(p[j], v)
        return None
    raise Unsupported(f"ufunc method {method}")


def _store(out, r):
    if out is None: return r
    if isinstance(out, SArr):
        out[...] = r
        return out
    if isinstance(out, np.ndarray):
        if has_sym(r) and any(is_sym(x) for x in plain(r).flat):
            raise Unsupported("in-place store of symbolic values into a concrete array")
        out[...] = np.asarray(r, dtype=out.dtype)
        return out
    raise Unsupported('out argument')


IDENT = {'add': F(0.0), 'multiply': F(1.0), 'logical_and': True, 'logical_or': False, 'bitwise_and': True, 'bitwise_or': False}


def reduce_(ufunc, a, axis=None, keepdims=False, initial=None, where=True, **kw):
    a = to_obj(a)
    f, kind = elem(ufunc)
    if keepdims is np._NoValue: keepdims = False
    if initial is np._NoValue: initial = None
    if where is np._NoValue: where = True
    if where is not True: where = np.broadcast_to(where, a.shape)
    if axis is None: axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple): axes = tuple(x % a.ndim for x in axis)
    else:
        if a.ndim == 0: axes = ()
        else:
            if not -a.ndim <= axis < a.ndim: raise np.exceptions.AxisError(axis, a.ndim)
            axes = (axis % a.ndim,)
    rest = [i for i in range(a.ndim) if i not in axes]
    at = a.transpose(rest + list(axes))
    wt = None if where is True else where.transpose(rest + list(axes))
    sh = tuple(a.shape[i] for i in rest)
    out = np.empty(sh, object)
    for ix in np.ndindex(*sh):
        xs = at[ix]
        xs = list(xs.flat) if isinstance(xs, np.ndarray) else [xs]
        if wt is not None:
            ws = wt[ix]; ws = list(np.asarray(ws).flat)
            xs = [x for x, w in zip(xs, ws) if w]
        out[ix] = fold(ufunc.__name__, f, xs, initial)
    if keepdims:
        out = out.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
        return wrap_keep(out)
    r = wrap(out)
    if kind == 'bool' and isinstance(r, np.ndarray): r = f_bool(r)
    return r


def fold(name, f, xs, initial=None):
    if initial is None:
        if not xs:
            if name in IDENT: return IDENT[name]
            raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
        acc = xs[0]
        if isinstance(acc, Uninit): raise UninitError("use of uninitialised array memory")
        xs = xs[1:]
    else: acc = initial
    if name == 'add': return ssum([acc] + list(xs))
    for x in xs: acc = f(acc, x)
    if isinstance(acc, (bool, int)) and name not in BOOLF: acc = F(acc)
    return acc


def ssum(xs):
    """sum of reals, numbers and symbols"""
    tot = {}
    const = F(0.0)
    special = None
    for x in xs:
        if isinstance(x, SymReal): tot = core.p_add(tot, x.p)
        elif isinstance(x, Uninit): raise UninitError("use of uninitialised array memory")
        elif isinstance(x, SymComplex): return sum(xs[1:], xs[0])
        else:
            x = F(bool(x)) if isinstance(x, SymBool) else F(x)
            if not np.isfinite(x): special = x if special is None else special + x
            else: const = const + x
    if special is not None: return F(special)
    if not tot: return const
    return mk(core.p_add(tot, core.p_const(float(const))))


def accumulate_(ufunc, a, axis):
    a = to_obj(a)
    f, _ = elem(ufunc)
    if axis is None: a = a.reshape(-1); axis = 0
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape, object)
    for ix in np.ndindex(*m.shape[:-1]):
        acc = None
        for j in range(m.shape[-1]):
            acc = m[ix + (j,)] if j == 0 else f(acc, m[ix + (j,)])
            out[ix + (j,)] = acc
    return wrap(np.moveaxis(out, -1, axis))


def f_bool(a):
    o = plain(a)
    r = np.empty(o.shape, bool)
    for ix in np.ndindex(*o.shape):
        x = o[ix]
        r[ix] = bool(x != 0) if isinstance(x, SymReal) else bool(x)
    return r


# ------------------------------------------------------------------ array functions
def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, **k):
    return _store(out, reduce_(np.add, a, axis=axis, keepdims=keepdims, initial=initial, where=where))


def _count(a, axis):
    if axis is None: return a.size
    if isinstance(axis, tuple): return int(np.prod([a.shape[i] for i in axis]))
    return a.shape[axis]


def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True, **k):
    a = to_obj(a)
    n = _count(a, axis)
    if where is not True and where is not np._NoValue:
        n = np.sum(np.broadcast_to(where, a.shape), axis=axis)
    s = reduce_(np.add, a, axis=axis, keepdims=keepdims, where=where)
    if is_num(n) and n == 0: return s * F('nan')
    return _store(out, s / (F(n) if is_num(n) else n))


def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = to_obj(a).view(SArr)
    m = f_mean(a, axis=axis, keepdims=True)
    d = a - m
    n = _count(a, axis) - ddof
    s = reduce_(np.add, d * d, axis=axis, keepdims=keepdims)
    if n <= 0: return s * F('nan')
    return s / F(n)


def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return np.sqrt(_as0(f_var(a, axis=axis, ddof=ddof, keepdims=keepdims)))


def _as0(x):
    return x


def f_average(a, axis=None, weights=None, returned=False, keepdims=False, **k):
    a = to_obj(a).view(SArr)
    if weights is None:
        r = f_mean(a, axis=axis)
        return (r, F(_count(a, axis))) if returned else r
    w = to_obj(weights).view(SArr)
    if a.shape != w.shape:
        if axis is None: raise TypeError("Axis must be specified when shapes of a and weights differ.")
        if w.ndim != 1: raise TypeError("1D weights expected when shapes of a and weights differ.")
        if w.shape[0] != a.shape[axis]: raise ValueError("Length of weights not compatible with specified axis.")
        w = np.swapaxes(np.broadcast_to(plain(w), (a.ndim - 1) * (1,) + w.shape), -1, axis).view(SArr)
        w = np.broadcast_to(plain(w), a.shape).view(SArr)
    sw = f_sum(w, axis=axis)
    ws = plain(sw) if isinstance(sw, np.ndarray) else [sw]
    for x in np.asarray(ws, object).reshape(-1) if isinstance(sw, np.ndarray) else ws:
        if is_num(x) and x == 0: raise ZeroDivisionError("Weights sum to zero, can't be normalized")
        if isinstance(x, SymReal) and p_sign(x.p) is None:
            if bool(x == 0): raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = f_sum(a * w, axis=axis) / sw
    return (r, sw) if returned else r


def f_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
    if fweights is not None or aweights is not None: raise Unsupported("cov weights")
    X = to_obj(m)
    if X.ndim > 2: raise ValueError("m has more than 2 dimensions")
    X = np.atleast_2d(X)
    if not rowvar and X.shape[0] != 1: X = X.T
    if y is not None:
        Y = np.atleast_2d(to_obj(y))
        if not rowvar and Y.shape[0] != 1: Y = Y.T
        X = np.concatenate((X, Y), axis=0)
    if ddof is None: ddof = 0 if bias else 1
    n = X.shape[1]
    X = X.view(SArr)
    D = X - f_mean(X, axis=1, keepdims=True)
    fact = n - ddof
    k_ = X.shape[0]
    out = np.empty((k_, k_), object)
    for i in range(k_):
        for j in range(i, k_):
            v = f_sum(D[i] * D[j])
            v = v / F(fact) if fact > 0 else F('nan')
            out[i, j] = v; out[j, i] = v
    out = out.view(SArr)
    if k_ == 1: return out[0, 0] if np.ndim(m) <= 1 and y is None else out[0, 0]
    return out


def f_corrcoef(x, y=None, rowvar=True, *a, **k):
    c = f_cov(x, y, rowvar)
    if not isinstance(c, SArr): return c / c
    n = c.shape[0]
    sd = [s_sqrt(c[i, i]) for i in range(n)]
    out = np.empty((n, n), object)
    for i in range(n):
        for j in range(n):
            out[i, j] = F(1.0) if i == j else (c[i, j] / sd[i]) / sd[j]
    if Ctx.cur is not None: Ctx.cur.note('standard deviations in correlations assumed non-zero')
    return out.view(SArr)


def f_clip(a, a_min=None, a_max=None, out=None, **k):
    if 'min' in k: a_min = k['min']
    if 'max' in k: a_max = k['max']
    r = a if isinstance(a, (SArr, SymReal)) else to_obj(a).view(SArr)
    if a_min is None and a_max is None and False: raise ValueError("One of max or min must be given")
    if a_min is not None: r = np.maximum(r, a_min) if has_sym(r) or has_sym(a_min) else np.maximum(r, a_min)
    if a_max is not None: r = np.minimum(r, a_max)
    return _store(out, r)


def _sorted(a):
    """sorted list of reals (forks on order)"""
    xs = list(a)
    import functools
    def cmp(x, y):
        if is_num(x) and is_num(y): return -1 if x < y else (1 if x > y else 0)
        return -1 if bool(x <= y) else 1
    # insertion sort keeps comparisons few
    out = []
    for x in xs:
        lo, hi = 0, len(out)
        while lo < hi:
            mid = (lo + hi) // 2
            if cmp(out[mid], x) <= 0: lo = mid + 1
            else: hi = mid
        out.insert(lo, x)
    return out


def f_quantile(a, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, interpolation=None, **k):
    if overwrite_input and isinstance(a, SArr):      # reordered in place
        if axis is None:
            if a.ndim == 1: a.sort()
            else: raise Unsupported('overwrite_input')
        else: a.sort(axis)
    a = to_obj(a)
    if interpolation is not None: method = interpolation
    qs = to_obj(q)
    if axis is None: a = a.reshape(1, -1); sq = True
    else: a = np.moveaxis(a, axis, -1); sq = False
    def one(xs, qq):
        n = len(xs)
        if n == 0: return F('nan')
        if any(is_num(x) and x != x for x in xs): return F('nan')
        if bool(qq < 0) or bool(qq > 1): raise ValueError("Quantiles must be in the range [0, 1]")
        s = _sorted(xs)
        v = qq * (n - 1)
        lo = core.s_floor_int(v) if isinstance(v, SymReal) else int(math.floor(v))
        if isinstance(v, SymReal) and lo < 0: lo = 0
        lo = min(max(lo, 0), n - 1)
        hi = min(lo + 1, n - 1)
        t = v - lo
        if method == 'linear': return s[lo] + (s[hi] - s[lo]) * t
        if method == 'lower': return s[lo]
        if method == 'higher': return s[lo] if bool(t == 0) else s[hi]
        if method == 'midpoint': return s[lo] if bool(t == 0) else (s[lo] + s[hi]) / 2
        if method == 'nearest':
            if bool(t == 0.5): return s[lo] if lo % 2 == 0 else s[hi]
            return s[lo] if bool(t < 0.5) else s[hi]
        raise Unsupported(f"quantile method {method}")
    def allx(qq):
        r = np.empty(a.shape[:-1], object)
        for ix in np.ndindex(*a.shape[:-1]): r[ix] = one(list(a[ix]), qq)
        return r.reshape(()) if sq else r
    if qs.ndim == 0: return wrap(allx(qs[()] if isinstance(qs[()], SymReal) else _f(qs[()])))
    out = np.empty(qs.shape + (() if sq else a.shape[:-1]), object)
    for ix in np.ndindex(*qs.shape):
        v = allx(qs[ix] if isinstance(qs[ix], SymReal) else _f(qs[ix])); out[ix] = v[()] if v.ndim == 0 else v
    return wrap(out)


def f_percentile(a, q, *args, **k):
    if isinstance(q, np.ndarray) and q.ndim == 0: q = to_obj(q)[()]
    if isinstance(q, SymReal): q = q / 100.0
    else: q = to_obj(q).view(SArr) / 100.0 if np.ndim(q) else F(q) / 100.0
    return f_quantile(a, q, *args, **k)


def f_median(a, axis=None, out=None, overwrite_input=False, keepdims=False): return f_quantile(a, 0.5, axis=axis, overwrite_input=overwrite_input)


def _nanmask(a):
    o = plain(a)
    m = np.empty(o.shape, bool)
    for ix in np.ndindex(*o.shape): m[ix] = is_num(o[ix]) and bool(o[ix] != o[ix])
    return m


def f_nanmean(a, axis=None, **k):
    o = to_obj(a)
    m = ~_nanmask(o)
    s = reduce_(np.add, o, axis=axis, where=m)
    n = m.sum(axis=axis)
    return s / (F(n) if np.ndim(n) == 0 else n)


def f_nansum(a, axis=None, **k):
    return reduce_(np.add, to_obj(a), axis=axis, where=~_nanmask(to_obj(a)))


def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    o = to_obj(x)
    def g(v):
        if is_num(v): return F(np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf))
        return v
    r = wrap(vec(g, [o]))
    return r if copy or not isinstance(x, np.ndarray) else _store(x, r)


def f_place(a, mask, v):
    m = np.asarray(f_bool(mask)).reshape(a.shape); v = list(plain(to_obj(v)).reshape(-1))
    for k, ix in enumerate(zip(*np.nonzero(m))): a[ix] = v[k % len(v)]


def f_putmask(a, mask, v):
    m = np.asarray(f_bool(mask)).reshape(-1); v = list(plain(to_obj(v)).reshape(-1))
    for i in range(m.size):
        if m[i]: a[np.unravel_index(i, a.shape)] = v[i % len(v)]


def f_put(a, ix, v, mode='raise'):
    v = list(plain(to_obj(v)).reshape(-1))
    for k, i in enumerate(np.asarray(ix).reshape(-1)): a[np.unravel_index(int(i) % a.size, a.shape)] = v[k % len(v)]


def f_fill_diagonal(a, v, wrap=False):
    v = list(plain(to_obj(v)).reshape(-1))
    for i in range(min(a.shape)): a[(i,) * a.ndim] = v[i % len(v)]


def f_dot(a, b, out=None):
    a, b = to_obj(a), to_obj(b)
    if a.ndim == 0 or b.ndim == 0: return wrap(vec(lambda x, y: x * y, [a, b]))
    if b.ndim == 1: r = _mm(a.reshape(-1, a.shape[-1]), b.reshape(-1, 1)).reshape(a.shape[:-1])
    elif b.ndim == 2: r = _mm(a.reshape(-1, a.shape[-1]), b).reshape(a.shape[:-1] + (b.shape[1],))
    else: raise Unsupported("dot ndim")
    return wrap(r)


def _mul(x, y):
    if isinstance(x, SymReal): return x * y
    if isinstance(y, SymReal): return y * x
    return F(x) * y if not isinstance(x, SymComplex) else x * y


def _mm(a, b):
    if a.shape[1] != b.shape[0]: raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
    r = np.empty((a.shape[0], b.shape[1]), object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            r[i, j] = ssum([_mul(x, y) for x, y in zip(a[i], b[:, j])])
    return r


def f_matmul(a, b, out=None):
    a, b = to_obj(a), to_obj(b)
    if a.ndim == 0 or b.ndim == 0: raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.ndim <= 2 and b.ndim <= 2: return f_dot(a, b)
    if b.ndim == 1: return f_dot(a, b)
    sh = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    A = np.broadcast_to(a, sh + a.shape[-2:]); B = np.broadcast_to(b, sh + b.shape[-2:])
    r = np.empty(sh + (a.shape[-2], b.shape[-1]), object)
    for ix in np.ndindex(*sh): r[ix] = _mm(A[ix], B[ix])
    return wrap(r)


def f_where(c, *xy):
    if not xy: return (f_bool(c) if isinstance(c, SArr) else np.asarray(c)).nonzero()
    x, y = xy
    c = f_bool(c) if isinstance(c, SArr) else (np.bool_(bool(c)) if isinstance(c, SymBool) else np.asarray(c).astype(bool))
    c_, x_, y_ = np.broadcast_arrays(c, to_obj(x), to_obj(y))
    out = np.empty(c_.shape, object)
    for ix in np.ndindex(*c_.shape): out[ix] = x_[ix] if c_[ix] else y_[ix]
    return wrap(out)


def f_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None: raise Unsupported("interp period")
    X, XP, FP = to_obj(x), plain(np.atleast_1d(to_obj(xp))), to_obj(fp)
    n = len(XP)
    def one(v):
        if bool(v < XP[0]): return FP[0] if left is None else left
        if bool(v > XP[n - 1]): return FP[n - 1] if right is None else right
        if bool(v == XP[n - 1]): return FP[n - 1]
        lo, hi = 0, n - 1
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if bool(v < XP[mid]): hi = mid
            else: lo = mid
        sl = (FP[hi] - FP[lo]) / (XP[hi] - XP[lo])
        return FP[lo] + sl * (v - XP[lo])
    return wrap(vec(one, [X]))


def _det(m):
    n = len(m)
    if n == 0: return F(1.0)
    if n == 1: return m[0][0]
    if n == 2: return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    s = F(0.0)
    for j in range(n):
        minor = [r[:j] + r[j + 1:] for r in m[1:]]
        t = m[0][j] * _det(minor)
        s = s + t if j % 2 == 0 else s - t
    return s


def _adj(m):
    n = len(m)
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i]
            c = _det(minor)
            out[j][i] = c if (i + j) % 2 == 0 else -c
    return out


def _rows(a): return [list(r) for r in plain(a)]


def f_inv(a):
    m = _rows(a)
    if len(m) > 4: raise Unsupported("inv of a matrix larger than 4")
    d = _det(m); A = _adj(m)
    if Ctx.cur is not None: Ctx.cur.note('matrices assumed non-singular')
    return to_obj([[x / d for x in r] for r in A]).view(SArr)


def f_solve(a, b):
    m = _rows(a)
    B = to_obj(b)
    d = _det(m); A = to_obj(_adj(m))
    if Ctx.cur is not None: Ctx.cur.note('matrices assumed non-singular')
    r = f_dot(A.view(SArr), B.view(SArr) if B.ndim else B)
    return r / d


def f_lstsq(a, b, rcond='warn'):
    A = to_obj(a); B = to_obj(b)
    if A.ndim != 2: raise np.linalg.LinAlgError("2-dimensional array required")
    if A.shape[0] != B.shape[0]: raise np.linalg.LinAlgError("Incompatible dimensions")
    n, k = A.shape
    if n < k: raise Unsupported("underdetermined least squares")
    if k > 4: raise Unsupported("least squares with more than 4 columns")
    if Ctx.cur is not None: Ctx.cur.note('least-squares designs assumed of full column rank')
    small = rcond is None or isinstance(rcond, str) or (not isinstance(rcond, SymReal) and rcond < 1e-9)
    if not any(isinstance(v, SymReal) for v in A.flat):     # numbers: the real pseudo-inverse, with the cutoff of singular values
        P = np.linalg.lstsq(np.asarray(A, dtype=float), np.eye(n), rcond=None if isinstance(rcond, str) else rcond)[0]
        x = f_dot(to_obj(P).view(SArr), B.view(SArr))
    else:
        if not small and (k > 1 or not rcond < 1): raise Unsupported(f"least squares with rcond={rcond}")
        At = A.T
        G = f_dot(At.view(SArr), A.view(SArr))
        rhs = f_dot(At.view(SArr), B.view(SArr))
        x = f_solve(G, rhs)
    if not isinstance(x, SArr): x = to_obj([x]).view(SArr)
    def resid():
        r = B.view(SArr) - f_dot(A, x)
        return f_sum(r * r, axis=0)
    return x, Lazy(resid), k, Lazy(lambda: (_ for _ in ()).throw(Unsupported("singular values")))


def f_pinv(a, rcond=None, hermitian=False, **k):
    A = to_obj(a)
    if A.ndim != 2: raise np.linalg.LinAlgError("2-dimensional array required")
    n, m = A.shape
    if n == m: return f_inv(a)
    if Ctx.cur is not None: Ctx.cur.note('pseudo-inverse arguments assumed of full rank')
    A = A.view(SArr); At = np.asarray(A).T.view(SArr)
    if n > m: return f_dot(_sq_inv(f_dot(At, A)), At)
    return f_dot(At, _sq_inv(f_dot(A, At)))


def _sq_inv(g):
    g = to_obj(g)
    if g.shape == (1, 1): return to_obj([[1.0 / g[0, 0]]]).view(SArr)
    return f_inv(g.view(SArr))


class Lazy:
    def __init__(self, f): self.f = f
    def __getattr__(self, n): return getattr(self.f(), n)
    def __iter__(self): return iter(np.atleast_1d(self.f()))
    def __getitem__(self, k): return np.atleast_1d(self.f())[k]
    def __len__(self): return 1


def f_cholesky(a):
    m = _rows(a); n = len(m)
    L = [[F(0.0)] * n for _ in range(n)]
    for j in range(n):
        for i in range(j, n):
            s = m[i][j]
            for k in range(j): s = s - L[i][k] * L[j][k]
            if i == j:
                if (is_num(s) and s <= 0) or (not is_num(s) and bool(s <= 0)): raise np.linalg.LinAlgError("Matrix is not positive definite")
                L[j][j] = s_sqrt(s)
            else: L[i][j] = s / L[j][j]
    return to_obj(L).view(SArr)


def f_det(a): return _det(_rows(a))


EIG_HOOK = None     # harness supplied: matrix rows -> list of eigenvalues


def _eig(a):
    m = _rows(a); n = len(m)
    if EIG_HOOK is not None:
        r = EIG_HOOK(m)
        if r is not None: return r
    if n == 1: return [m[0][0]]
    if all(is_num(x) for r in m for x in r):
        return [F(x) for x in np.linalg.eigvals(np.array([[float(x) for x in r] for r in m]))]
    raise Unsupported("eigenvalues of a symbolic matrix")


def f_eigvals(a): return to_obj(_eig(a)).view(SArr)
def f_eigvalsh(a, UPLO='L'): return to_obj(_sorted(_eig(a))).view(SArr)
def f_eig(a): return f_eigvals(a), Lazy(lambda: (_ for _ in ()).throw(Unsupported("eigenvectors")))
def f_eigh(a, UPLO='L'): return f_eigvalsh(a), Lazy(lambda: (_ for _ in ()).throw(Unsupported("eigenvectors")))
def f_svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    s = to_obj(_sorted(_eig(a))[::-1]).view(SArr)   # symmetric positive semidefinite matrices only (harness guarantees)
    if not compute_uv: return s
    u = Lazy(lambda: (_ for _ in ()).throw(Unsupported("singular vectors")))
    return u, s, u


def f_diff(a, n=1, axis=-1, **k):
    a = to_obj(a).view(SArr)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim; sl2 = [slice(None)] * a.ndim
        sl1[axis] = slice(1, None); sl2[axis] = slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


def f_trapz(y, x=None, dx=1.0, axis=-1):
    y = to_obj(y).view(SArr)
    if y.ndim != 1: raise Unsupported("trapz ndim")
    d = f_diff(x) if x is not None else dx
    return f_sum(d * (y[1:] + y[:-1]) / 2.0)


def f_outer(a, b, out=None):
    return array_ufunc(np.multiply, 'outer', (to_obj(a).reshape(-1).view(SArr), to_obj(b).reshape(-1).view(SArr)), {})


def f_einsum(spec, *ops, **k):
    if not isinstance(spec, str): raise Unsupported("einsum form")
    spec = spec.replace(' ', '')
    if '.' in spec: raise Unsupported("einsum ellipsis")
    ins, _, outs = spec.partition('->')
    ins = ins.split(',')
    if '->' not in spec:
        allc = ''.join(ins); outs = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    O = [to_obj(o) for o in ops]
    dim = {}
    for s, o in zip(ins, O):
        for c, d in zip(s, o.shape): dim[c] = d
    rest = [c for c in dim if c not in outs]
    r = np.empty(tuple(dim[c] for c in outs), object)
    for ix in np.ndindex(*r.shape):
        env = dict(zip(outs, ix))
        ts = []
        for jx in itertools.product(*[range(dim[c]) for c in rest]):
            env.update(zip(rest, jx))
            t = F(1.0)
            for s, o in zip(ins, O): t = t * o[tuple(env[c] for c in s)]
            ts.append(t)
        r[ix] = ssum(ts)
    return wrap(r)


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = to_obj(a).view(SArr), to_obj(b).view(SArr)
    return abs(a - b) <= atol + rtol * abs(b) if a.ndim or b.ndim else np.bool_(bool(abs(a[()] - b[()]) <= atol + rtol * abs(b[()])))


def f_array_equal(a, b, **k):
    a, b = to_obj(a), to_obj(b)
    return a.shape == b.shape and all(bool(x == y) for x, y in zip(a.flat, b.flat))


def f_select(condlist, choicelist, default=0):
    r = default
    for c, v in list(zip(condlist, choicelist))[::-1]: r = f_where(c, v, r)
    return r


def f_searchsorted(a, v, side='left', sorter=None):
    A = plain(a); V = to_obj(v)
    def one(x):
        n = 0
        for y in A:
            if (side == 'left' and bool(y < x)) or (side == 'right' and bool(y <= x)): n += 1
            else: break
        return n
    r = vec(one, [V])
    return int(r[()]) if r.ndim == 0 else r.astype(int)


def f_sort(a, axis=-1, **k):
    o = to_obj(a)
    if axis is None: o = o.reshape(-1); axis = -1
    m = np.moveaxis(o, axis, -1)
    out = np.empty(m.shape, object)
    for ix in np.ndindex(*m.shape[:-1]):
        out[ix] = _fromlist(_sorted(list(m[ix])))
    return wrap_keep(np.moveaxis(out, -1, axis))


def f_array(*a, **k): raise Unsupported


FUNCS = {}


def _reg():
    m = {'sum': f_sum, 'mean': f_mean, 'var': f_var, 'std': f_std, 'average': f_average, 'cov': f_cov, 'corrcoef': f_corrcoef,
         'clip': f_clip, 'percentile': f_percentile, 'quantile': f_quantile, 'median': f_median, 'nanmean': f_nanmean,
         'nansum': f_nansum, 'nanpercentile': f_percentile, 'nanquantile': f_quantile, 'nan_to_num': f_nan_to_num, 'place': f_place, 'putmask': f_putmask, 'put': f_put, 'fill_diagonal': f_fill_diagonal,
         'dot': f_dot, 'vdot': lambda a, b: f_dot(plain(a).reshape(-1), plain(b).reshape(-1)), 'inner': lambda a, b: f_dot(a, np.swapaxes(to_obj(b), -1, -2) if to_obj(b).ndim > 1 else b),
         'where': f_where, 'interp': f_interp, 'diff': f_diff, 'trapz': f_trapz, 'outer': f_outer,
         'einsum': f_einsum, 'isclose': f_isclose, 'allclose': lambda a, b, **k: bool(np.all(f_isclose(a, b, **k))),
         'array_equal': f_array_equal, 'select': f_select, 'searchsorted': f_searchsorted, 'sort': f_sort,
         'argsort': lambda a, axis=-1, **k: plain(a).argsort(axis, kind='stable'),
         'argmax': lambda a, axis=None, **k: plain(a).argmax(axis), 'argmin': lambda a, axis=None, **k: plain(a).argmin(axis),
         'prod': lambda a, axis=None, **k: reduce_(np.multiply, a, axis=axis), 'max': None, 'min': None,
         'amax': lambda a, axis=None, out=None, **k: reduce_(np.maximum, a, axis=axis, **k), 'amin': lambda a, axis=None, out=None, **k: reduce_(np.minimum, a, axis=axis, **k),
         'nanmax': lambda a, axis=None, **k: reduce_(np.fmax, a, axis=axis), 'nanmin': lambda a, axis=None, **k: reduce_(np.fmin, a, axis=axis),
         'cumsum': lambda a, axis=None, **k: accumulate_(np.add, a, axis), 'cumprod': lambda a, axis=None, **k: accumulate_(np.multiply, a, axis),
         'any': lambda a, axis=None, **k: f_bool(a).any(axis), 'all': lambda a, axis=None, **k: f_bool(a).all(axis),
         'nonzero': lambda a: f_bool(a).nonzero(), 'flatnonzero': lambda a: np.flatnonzero(f_bool(a)), 'argwhere': lambda a: np.argwhere(f_bool(a)),
         'count_nonzero': lambda a, **k: np.count_nonzero(f_bool(a), **k),
         'iscomplexobj': lambda a: False, 'isrealobj': lambda a: True, 'real': lambda a: a, 'imag': lambda a: a * 0.0,
         'real_if_close': lambda a, **k: a, 'shape': lambda a: to_obj(a).shape, 'ndim': lambda a: to_obj(a).ndim, 'size': lambda a, axis=None: to_obj(a).size if axis is None else to_obj(a).shape[axis],
         'may_share_memory': lambda a, b, **k: np.may_share_memory(plain(a), plain(b)), 'shares_memory': lambda a, b, **k: np.shares_memory(plain(a), plain(b)),
         'copyto': lambda dst, src, **k: dst.__setitem__(Ellipsis, src),
         'zeros_like': lambda a, *b, **k: c_zeros(to_obj(a).shape, dtype=k.get('dtype')), 'ones_like': lambda a, *b, **k: c_ones(to_obj(a).shape, dtype=k.get('dtype')),
         'empty_like': lambda a, *b, **k: c_empty(to_obj(a).shape, dtype=k.get('dtype')), 'full_like': lambda a, v, **k: c_full(to_obj(a).shape, v, dtype=k.get('dtype')),
         'isin': None}
    for n, f in m.items():
        if hasattr(np, n) and f is not None: FUNCS[getattr(np, n)] = f
    FUNCS[np.max] = FUNCS[np.amax]; FUNCS[np.min] = FUNCS[np.amin]
    L = {'lstsq': f_lstsq, 'inv': f_inv, 'solve': f_solve, 'cholesky': f_cholesky, 'det': f_det, 'eigvals': f_eigvals, 'eigvalsh': f_eigvalsh,
         'eig': f_eig, 'eigh': f_eigh, 'svd': f_svd, 'pinv': f_pinv, 'norm': f_norm}
    for n, f in L.items(): FUNCS[getattr(np.linalg, n)] = f


def f_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2) : raise Unsupported("norm ord")
    a = to_obj(x).view(SArr)
    return np.sqrt(f_sum(a * a, axis=axis, keepdims=keepdims))


STRUCT = ('concatenate vstack hstack stack column_stack dstack row_stack transpose reshape ravel squeeze expand_dims broadcast_to tile repeat roll '
          'flip fliplr flipud diag take delete insert append array_split split hsplit vsplit moveaxis swapaxes rollaxis atleast_1d atleast_2d atleast_3d '
          'copy tril triu diagonal rot90 broadcast_arrays diagflat compress extract trace take_along_axis ix_ meshgrid block resize').split()
STRUCTF = set()
_reg()
for _n in STRUCT:
    if hasattr(np, _n): STRUCTF.add(getattr(np, _n))


def _strip(x):
    if isinstance(x, SArr): return x.view(np.ndarray)
    if isinstance(x, (SymReal, SymBool)): return to_obj(x)
    if isinstance(x, list): return [_strip(i) for i in x]
    if isinstance(x, tuple): return tuple(_strip(i) for i in x)
    if isinstance(x, np.ndarray) and x.dtype.kind == 'f': return to_obj(x)
    return x


def _rewrap(r):
    if isinstance(r, np.ndarray): return wrap_keep(r) if r.ndim else wrap(r)
    if isinstance(r, list): return [_rewrap(i) for i in r]
    if isinstance(r, tuple): return tuple(_rewrap(i) for i in r)
    return r


def array_function(func, types, args, kw):
    f = FUNCS.get(func)
    if f is not None:
        out = kw.get('out')
        if out is None: return f(*args, **kw)
        return _store(out[0] if isinstance(out, tuple) else out, f(*args, **{k: v for k, v in kw.items() if k != 'out'}))
    if func in STRUCTF:
        return _rewrap(func(*_strip(tuple(args)), **{k: _strip(v) for k, v in kw.items()}))
    mod = getattr(func, '__module__', '')
    if 'fft' in mod: return fft_function(func.__name__, args, kw)
    a, k = concrete((args, kw))
    if a is not None: return _refloat(func(*a, **k))
    raise Unsupported(f"numpy function {func.__name__} on symbolic values")


class _Symbolic(Exception): pass


def _conc(x):
    if isinstance(x, (SymReal, SymBool)) or x is UNINIT: raise _Symbolic
    if isinstance(x, np.ndarray):
        a = x.view(np.ndarray)
        if a.dtype != object: return a
        v = [_conc(i) for i in a.ravel()]
        if not all(isinstance(i, (float, int, np.number, np.bool_)) for i in v): raise _Symbolic
        return np.array(v).reshape(a.shape) if v else np.zeros(a.shape)
    if isinstance(x, (list, tuple)): return type(x)(_conc(i) for i in x)
    if isinstance(x, dict): return {k: _conc(v) for k, v in x.items()}
    return x


def concrete(x):
    """the arguments as plain numpy values when nothing in them is symbolic"""
    try: return _conc(x)
    except _Symbolic: return None, None


def _refloat(r):
    if isinstance(r, np.ndarray) and r.dtype.kind == 'f': return SArr_from(r)
    if isinstance(r, tuple): return tuple(_refloat(i) for i in r)
    if isinstance(r, list): return [_refloat(i) for i in r]
    return r


# ------------------------------------------------------------------ complex (fft only)
class SymComplex:
    __slots__ = ('re', 'im')
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, re, im): self.re = re; self.im = im

    @staticmethod
    def of(x):
        if isinstance(x, SymComplex): return x
        if isinstance(x, (complex, np.complexfloating)) and not isinstance(x, (float, int)): return SymComplex(F(x.real), F(x.imag))
        return SymComplex(x, F(0.0))
    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    def __add__(s, o): o = SymComplex.of(o); return SymComplex(s.re + o.re, s.im + o.im)
    __radd__ = __add__
    def __sub__(s, o): o = SymComplex.of(o); return SymComplex(s.re - o.re, s.im - o.im)
    def __rsub__(s, o): o = SymComplex.of(o); return o - s
    def __mul__(s, o): o = SymComplex.of(o); return SymComplex(s.re * o.re - s.im * o.im, s.re * o.im + s.im * o.re)
    __rmul__ = __mul__
    def __neg__(s): return SymComplex(-s.re, -s.im)
    def __truediv__(s, o):
        if isinstance(o, SymComplex): raise Unsupported("complex division")
        return SymComplex(s.re / o, s.im / o)
    def conjugate(s): return SymComplex(s.re, -s.im)


class CArr:
    """minimal complex array: 1-d or 2-d object array of SymComplex"""
    __array_ufunc__ = None
    __array_priority__ = 3000

    def __init__(self, o): self.o = o
    @property
    def shape(self): return self.o.shape
    @property
    def ndim(self): return self.o.ndim
    def __len__(self): return len(self.o)
    def _bin(self, x, f):
        y = x.o if isinstance(x, CArr) else to_obj(x)
        return CArr(vec(lambda a, b: f(SymComplex.of(a), SymComplex.of(b)), [self.o, y]))
    def __mul__(self, x): return self._bin(x, lambda a, b: a * b)
    __rmul__ = __mul__
    def __add__(self, x): return self._bin(x, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, x): return self._bin(x, lambda a, b: a - b)
    def __truediv__(self, x): return self * (1.0 / x)
    def __getitem__(self, k):
        r = self.o[k]
        return CArr(r) if isinstance(r, np.ndarray) else r
    @property
    def real(self): return wrap(vec(lambda a: a.re, [self.o]))
    @property
    def imag(self): return wrap(vec(lambda a: a.im, [self.o]))
    def conj(self): return CArr(vec(lambda a: a.conjugate(), [self.o]))
    conjugate = conj
    @property
    def T(self): return CArr(self.o.T)
    def reshape(self, *a): return CArr(self.o.reshape(*a))

    def __array_function__(self, func, types, args, kw):
        if 'fft' in getattr(func, '__module__', ''): return fft_function(func.__name__, args, kw)
        if func is np.real: return self.real
        if func is np.imag: return self.imag
        if func is np.conj: return self.conj()
        raise Unsupported(f"{func.__name__} on symbolic complex")


def _clean(x):
    """round off trig noise"""
    for v in (0.0, 1.0, -1.0, 0.5, -0.5):
        if abs(x - v) < 1e-15: return v
    return x


def fft_function(name, args, kw):
    a = args[0]
    axis = kw.get('axis', args[2] if len(args) > 2 else -1)
    n = kw.get('n', args[1] if len(args) > 1 else None)
    if kw.get('norm') not in (None, 'backward'): raise Unsupported("fft norm")
    o = a.o if isinstance(a, CArr) else to_obj(a)
    if name not in ('fft', 'ifft'): raise Unsupported(name)
    o = np.moveaxis(o, axis, -1)
    N = o.shape[-1] if n is None else n
    if n is not None and n != o.shape[-1]: raise Unsupported("fft n")
    sgn = -1 if name == 'fft' else 1
    W = [complex(_clean(math.cos(2 * math.pi * k / N)), _clean(sgn * math.sin(2 * math.pi * k / N))) for k in range(N)]
    out = np.empty(o.shape, object)
    for ix in np.ndindex(*o.shape[:-1]):
        row = [SymComplex.of(v) for v in o[ix]]
        for k in range(N):
            re, im = [], []
            for j, v in enumerate(row):
                w = W[(j * k) % N]
                re += [v.re * w.real, v.im * (-w.imag)]; im += [v.re * w.imag, v.im * w.real]
            r, i = ssum(re), ssum(im)
            if name == 'ifft': r, i = r / N, i / N
            out[ix + (k,)] = SymComplex(r, i)
    return CArr(np.moveaxis(out, -1, axis))


# ------------------------------------------------------------------ creation functions and the numpy proxy
def dtype_of(t):
    if t is None: return None
    if t is FloatShim or t is Float64Shim: return np.dtype(np.float64)
    try: return np.dtype(t)
    except TypeError:
        d = getattr(t, 'dtype', None)
        if isinstance(d, np.dtype): return d
        raise


def _isfloat(d): return d is None or d.kind == 'f' or d.kind == 'O'


def _shape(s):
    if isinstance(s, (tuple, list)): return tuple(int(x) for x in s)
    return (int(s),)


def c_full(shape, v, dtype=None, order='C', **k):
    d = dtype_of(dtype)
    if d is not None and not _isfloat(d): return np.full(shape, v, dtype=d)
    if d is None and isinstance(v, (bool, int, np.integer, np.bool_)): return np.full(shape, v)
    if isinstance(v, complex) and not isinstance(v, float): return np.full(shape, v)
    r = np.empty(_shape(shape), object)
    vv = to_obj(v)
    r[...] = vv
    return r.view(SArr)


def c_zeros(shape, dtype=None, order='C', **k):
    return c_full(shape, F(0.0), dtype)


def c_ones(shape, dtype=None, order='C', **k): return c_full(shape, F(1.0), dtype)


def c_empty(shape, dtype=None, order='C', **k):
    d = dtype_of(dtype)
    if d is not None and not _isfloat(d): return np.zeros(shape, dtype=d)
    r = np.empty(_shape(shape), object)
    for i in range(r.size): r.reshape(-1)[i] = UNINIT
    r = r.reshape(-1); r[:] = [UNINIT] * r.size
    return r.reshape(_shape(shape)).view(SArr)


def _series(x):
    return type(x).__module__.startswith('pandas') and hasattr(x, 'to_numpy')


def c_array(obj, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
    d = dtype_of(dtype)
    if isinstance(obj, CArr): return obj
    if _series(obj): obj = getattr(obj, '_symarr', None) if hasattr(obj, '_symarr') else obj.to_numpy()
    if isinstance(obj, SArr):
        if d is not None and not _isfloat(d): r = obj.astype(d)
        else:
            r = obj.copy() if copy else obj
        while r.ndim < ndmin: r = r[None]
        return r
    if not has_sym(obj) and not _deep_sym(obj):
        r = np.array(obj, dtype=d if d is None or d.kind != 'O' else None, order=order, ndmin=ndmin)
        if r.dtype.kind == 'f': return to_obj(r).view(SArr)
        if r.dtype == object: r = to_obj(r)
        return r
    if hasattr(obj, '__iter__') and not isinstance(obj, (list, tuple, np.ndarray)): obj = list(obj)
    o = to_obj(obj)
    if o.ndim == 0:
        if d is not None and d.kind in 'iu': return np.array(core.s_trunc(o[()]), dtype=d)
        r = o.view(SArr)
    else:
        o2 = np.empty(o.shape, object)
        f2 = o2.reshape(-1)
        for n, v in enumerate(o.flat): f2[n] = v if not isinstance(v, (bool, int)) else F(v)
        r = f2.reshape(o.shape).view(SArr)
        if d is not None and not _isfloat(d): return r.astype(d)
    while r.ndim < ndmin: r = r[None]
    return r


def _deep_sym(o):
    if isinstance(o, (list, tuple)): return any(_deep_sym(i) for i in o)
    return isinstance(o, (SymReal, SArr, SymBool)) or (isinstance(o, np.ndarray) and _rawdtype(o) == _objdt)


def c_asarray(obj, dtype=None, order=None, **k):
    d = dtype_of(dtype)
    if isinstance(obj, CArr): return obj
    if isinstance(obj, SArr) and _isfloat(d): return obj
    if isinstance(obj, np.ndarray) and not isinstance(obj, SArr) and obj.dtype != object and obj.dtype.kind not in 'f':
        if d is None or d == obj.dtype: return obj
    return c_array(obj, dtype, copy=False)


def c_ascontiguous(obj, dtype=None, **k):
    a = c_asarray(obj, dtype)
    if isinstance(a, np.ndarray) and not a.flags.c_contiguous:
        return np.ascontiguousarray(plain(a)).view(SArr) if isinstance(a, SArr) else np.ascontiguousarray(a)
    return a


def c_fromiter(it, dtype=None, count=-1, **k):
    d = dtype_of(dtype)
    xs = list(it)
    if count >= 0:
        if len(xs) < count: raise ValueError("iterator too short")
        xs = xs[:count]
    if d is not None and not _isfloat(d): return np.array([core.s_trunc(x) if is_sym(x) else x for x in xs], dtype=d)
    r = np.empty(len(xs), object)
    for i, x in enumerate(xs): r[i] = x if isinstance(x, SymReal) else F(x)
    return r.view(SArr)


def _tofloat_result(r):
    if isinstance(r, np.ndarray) and r.dtype.kind == 'f': return to_obj(r).view(SArr)
    return r


def c_arange(*a, **k):
    if any(isinstance(x, SymReal) for x in a): raise Unsupported("arange of symbolic bounds")
    if 'dtype' in k: k['dtype'] = dtype_of(k['dtype'])
    return _tofloat_result(np.arange(*a, **k))


def c_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if isinstance(start, SymReal) or isinstance(stop, SymReal):
        n = num - 1 if endpoint else num
        st = (stop - start) / n
        r = to_obj([start + st * i for i in range(num)]).view(SArr)
        return (r, st) if retstep else r
    r = np.linspace(start, stop, num, endpoint, retstep)
    if retstep: return _tofloat_result(r[0]), r[1]
    return _tofloat_result(r)


class _Meta(type):
    def __instancecheck__(cls, x): return isinstance(x, cls._real) or isinstance(x, SymReal)
    def __subclasscheck__(cls, x):
        try: return issubclass(x, cls._real) or x is SymReal
        except TypeError: return False
    def __eq__(cls, o): return o is cls or o is cls._real
    def __hash__(cls): return hash(cls._real)


class FloatShim(metaclass=_Meta):
    _real = float
    dtype = np.dtype(np.float64)
    __name__ = 'float'

    def __new__(cls, x=0.0):
        if isinstance(x, SymReal): return x
        if isinstance(x, SymBool): return float(bool(x))
        if isinstance(x, SArr) and x.size == 1: return FloatShim(x.item())
        if isinstance(x, Uninit): raise UninitError("use of uninitialised array memory")
        return float(x)
    fromhex = float.fromhex


class Float64Shim(metaclass=_Meta):
    _real = np.float64
    dtype = np.dtype(np.float64)
    __name__ = 'float64'

    def __new__(cls, x=0.0):
        if isinstance(x, SymReal): return x
        if isinstance(x, SArr): return x
        if isinstance(x, SymBool): return F(bool(x))
        return np.float64(x)


class FloatingShim(metaclass=_Meta):
    _real = np.floating


class NumberShim(metaclass=_Meta):
    _real = np.number


def np_proxy(random=None):
    """module-like object standing for numpy in code under symbolic execution"""
    import types
    P = types.ModuleType('numpy')
    over = {'array': c_array, 'asarray': c_asarray, 'asanyarray': c_asarray, 'ascontiguousarray': c_ascontiguous, 'asfortranarray': c_asarray,
            'zeros': c_zeros, 'ones': c_ones, 'empty': c_empty, 'full': c_full, 'fromiter': c_fromiter, 'arange': c_arange, 'linspace': c_linspace,
            'zeros_like': lambda a, dtype=None, *b, **k: c_zeros(k.get('shape') or _sh(a), dtype=dtype if dtype is not None else _dt(a)),
            'ones_like': lambda a, dtype=None, *b, **k: c_ones(_sh(a), dtype=dtype if dtype is not None else _dt(a)),
            'empty_like': lambda a, dtype=None, *b, **k: c_empty(_sh(a), dtype=dtype if dtype is not None else _dt(a)),
            'full_like': lambda a, v, dtype=None, *b, **k: c_full(_sh(a), v, dtype=dtype if dtype is not None else _dt(a)),
            'eye': lambda *a, **k: _tofloat_result(np.eye(*a)), 'identity': lambda n, **k: _tofloat_result(np.identity(n)),
            'geomspace': lambda *a, **k: _tofloat_result(np.geomspace(*a, **k)), 'logspace': lambda *a, **k: _tofloat_result(np.logspace(*a, **k)),
            'float64': Float64Shim, 'double': Float64Shim, 'float_': Float64Shim, 'floating': FloatingShim, 'number': NumberShim,
            'isscalar': lambda x: isinstance(x, SymReal) or np.isscalar(x),
            'copy': lambda a, **k: c_array(a), 'asscalar': lambda a: a.item(),
            'vectorize': Vectorize, 'require': c_asarray, 'squeeze': f_squeeze,
            }
    for n in dir(np):
        if n.startswith('__') and n not in ('__version__', '__doc__'): continue
        if n in ('random', 'linalg', 'fft', 'lib', 'core', 'ma', 'f2py', 'testing'): continue
        try: v = getattr(np, n)
        except Exception: continue
        setattr(P, n, v)
    for n, v in over.items(): setattr(P, n, v)
    # functions called with lists of symbols: route through conversion
    for n in ('sum mean var std average cov corrcoef percentile quantile median nanmean nansum dot where clip interp diff max min amax amin prod sort argsort '
              'concatenate vstack hstack stack column_stack transpose cumsum outer trapz searchsorted any all append atleast_1d atleast_2d repeat tile '
              'nonzero argwhere einsum inner vdot diag ravel reshape select argmax argmin').split():
        if hasattr(np, n): setattr(P, n, _conv(getattr(np, n)))
    import types as _t
    L = _t.ModuleType('numpy.linalg')
    for n in dir(np.linalg):
        if not n.startswith('__'): setattr(L, n, getattr(np.linalg, n))
    for n in ('lstsq', 'inv', 'solve', 'cholesky', 'det', 'eigvals', 'eigvalsh', 'eig', 'eigh', 'svd', 'pinv', 'norm'):
        setattr(L, n, _conv(getattr(np.linalg, n)))
    P.linalg = L
    Ff = _t.ModuleType('numpy.fft')
    for n in dir(np.fft):
        if not n.startswith('__'): setattr(Ff, n, getattr(np.fft, n))
    for n in ('fft', 'ifft'): setattr(Ff, n, lambda *a, _n=n, **k: fft_function(_n, a, k) if (isinstance(a[0], CArr) or has_sym(a[0])) else getattr(np.fft, _n)(*a, **k))
    P.fft = Ff
    if random is not None: P.random = random
    return P


def f_squeeze(a, axis=None):
    if isinstance(a, SymReal): return a
    return np.squeeze(a, axis)


def _sh(a): return a.shape if isinstance(a, np.ndarray) else to_obj(a).shape
def _dt(a):
    if isinstance(a, np.ndarray): return a.dtype
    o = np.asarray(a) if not _deep_sym(a) else None
    return o.dtype if o is not None else np.dtype(float)


def _conv(fn):
    """call fn so that symbolic scalars/lists in argument position are seen"""
    def g(*a, **k):
        def cv(x):
            if isinstance(x, SymReal): return to_obj(x).view(SArr)
            if isinstance(x, (list, tuple)) and _deep_sym(x) and not all(isinstance(i, np.ndarray) for i in x):
                if any(isinstance(i, np.ndarray) and i.ndim for i in x) or len({np.shape(to_obj(i)) for i in x}) > 1:
                    return type(x)([cv(i) if not isinstance(i, (list, tuple)) else c_array(i) for i in x])
                return c_array(x)
            if type(x).__name__ in ('generator', 'map', 'filter', 'zip'): return c_array(list(x))
            return x
        scalar_ok = bool(a) and isinstance(a[0], SymReal)
        a2 = tuple(cv(x) for x in a); k2 = {n: cv(v) if n not in ('out', 'axis') else v for n, v in k.items()}
        if any(has_sym(x) for x in a2) or any(has_sym(v) for v in k2.values()):
            # any symbolic argument forces the symbolic implementation
            f = FUNCS.get(fn)
            if f is not None:
                try:
                    r = f(*a2, **k2)
                except TypeError as e:
                    if 'unexpected keyword' in str(e) or 'positional argument' in str(e): raise Unsupported(f"{fn.__name__}: {e}")
                    raise
            elif fn in STRUCTF: r = array_function(fn, (), a2, k2)
            else: r = fn(*a2, **k2)
            if isinstance(r, np.ndarray) and r.ndim == 0 and scalar_ok: r = r[()]
            return r
        return _tofloat_result(fn(*a2, **k2))
    g.__name__ = fn.__name__
    return g


class Vectorize:
    def __init__(self, f, otypes=None, **k): self.f = f
    def __call__(self, *a):
        return wrap(vec(self.f, [to_obj(x) for x in a]))


def SArr_from(v, shape=None):
    """nested lists of scalars -> SArr"""
    a = c_array(v)
    if not isinstance(a, SArr): a = to_obj(a).view(SArr) if isinstance(a, np.ndarray) else a
    return a
