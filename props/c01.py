"""C01 GARCH(1,1) variance series"""
import math
import numpy as np
from symx.harness import ob, UTILS
from props import garchspec as G, longspec as L

EXT = dict(ext=True, exts=[UTILS])
B = 'T residuals, parameters, backcast and per-period bounds: arbitrary reals (bounds positive, lower <= upper); every combination of bound adjustments at every step'


def inputs(env, T):
    om, al, be = env.real('omega'), env.real('alpha'), env.real('beta')
    e = env.arr('e', T); bc = env.real('backcast')
    lo = env.vec('lo', T, pos=True); w = env.vec('w', T, nonneg=True)
    vb = [(lo[t], lo[t] + w[t]) for t in range(T)]
    return [om, al, be], e, bc, vb


def kinds(env, p, form):
    return tuple(p) if form == 'tuple' else env.asarray(p) if form == 'array' else list(p)


C = [dict(T=T, ext=x, form=f) for T, x, f in [(1, False, 'list'), (1, True, 'list'), (2, False, 'tuple'), (2, True, 'array'), (3, False, 'array'), (3, True, 'list'), (4, False, 'list'), (4, True, 'tuple')]]


@ob('C01', quick=C, thorough=C + [dict(T=5, ext=False, form='list'), dict(T=5, ext=True, form='list')], bounds='T <= 4 (5 thorough): ' + B, max_paths=3000, **EXT)
def series(env, T, ext, form):
    p, e, bc, vb = inputs(env, T)
    M = env.mod('frds.algorithms', ext=ext).GARCHModel
    got = M.compute_variance(kinds(env, p, form), e, bc, env.asarray([list(r) for r in vb]))
    env.eq(got, env.asarray(G.garch(env, p, e, bc, vb)), 'variance')


@ob('C01', quick=[dict(T=12, ext=False), dict(T=12, ext=True)], thorough=[dict(T=40, ext=False), dict(T=40, ext=True)], bounds='T = 12 (40 thorough), values for which no bound is active', history=False, **EXT)
def long_series(env, T, ext):
    p, e, bc, vb = inputs(env, T)
    raw = [p[0] + (p[1] + p[2]) * bc]
    for t in range(1, T):
        raw.append(p[0] + p[1] * e[t - 1] * e[t - 1] + p[2] * raw[-1])
        env.assume(raw[t] > vb[t][0]); env.assume(raw[t] < vb[t][1])
    M = env.mod('frds.algorithms', ext=ext).GARCHModel
    env.eq(M.compute_variance(p, e, bc, env.asarray([list(r) for r in vb])), env.asarray(raw), 'variance')


@ob('C01', quick=[dict(ext=False), dict(ext=True)], bounds='one variance, arbitrary; positive bounds; array, list rows', **EXT)
def bounds_check(env, ext):
    v = env.real('v'); lo = env.real('lo', pos=True); up = lo + env.real('w', nonneg=True)
    M = env.mod('frds.algorithms', ext=ext).GARCHModel
    env.eq(M.bounds_check(v, env.asarray([lo, up])), G.bound(env, v, lo, up), 'bounded variance')


@ob('C01', quick=[dict(ext=False), dict(ext=True)], bounds='infinite variance; bounds arbitrary positive', **EXT)
def infinite(env, ext):
    lo = env.real('lo', pos=True); up = lo + env.real('w', nonneg=True)
    M = env.mod('frds.algorithms', ext=ext).GARCHModel
    env.eq(M.bounds_check(math.inf, env.asarray([lo, up])), up + 1000, 'infinite variance')


def year(env, T):
    """a residual history with four symbolic residuals, and bounds that bind at listed periods"""
    e = env.asarray([-v if i % 3 == 1 else v for i, v in enumerate(L.mixed(env, 'e', T, 1, -3.0, 3.0))])
    vb = []
    for t in range(T):
        lo, up = 0.01, 1000.0
        if t % 50 == 20: lo, up = 40.0, 1000.0
        if t % 50 == 40: lo, up = 0.01, 0.3
        vb.append((lo, up))
    return e, vb


@ob('C01', quick=[dict(T=250, ext=x) for x in (False, True)], thorough=[dict(T=1000, ext=x) for x in (False, True)], bounds='T = 250 (1000 thorough): the residuals at positions 0, 1, T/2, T-1 any reals in [-3, 3] and the backcast any in [0.5, 2], the rest, the parameters and the bounds listed numbers; bounds bind from below and above every 50 periods', max_paths=60, time_s=150, **EXT)
def long_history(env, T, ext):
    e, vb = year(env, T)
    p, bc = [0.05, 0.07, 0.9], env.real('backcast', lo=0.5, hi=2.0)
    M = env.mod('frds.algorithms', ext=ext).GARCHModel
    env.eq(M.compute_variance(p, e, bc, env.asarray([list(r) for r in vb])), env.asarray(G.garch(env, p, e, bc, vb)), 'variance')


@ob('C01', quick=[dict(T=6, ext=x, t=t) for x in (False, True) for t in ('int64', 'float32')], bounds='6 listed residuals held as integers or in single precision; omega in [0.25, 0.75], backcast in [0.5, 1.5], other parameters listed, bounds that never bind', max_paths=60, **EXT)
def typed(env, T, ext, t):
    p = [env.real('omega', lo=0.25, hi=0.75), 0.125, 0.75]; bc = env.real('backcast', lo=0.5, hi=1.5)
    e = np.array([2, -1, 3, 0, -2, 1], dtype=t)
    lo, up = 0.01, 1000.0
    spec = [p[0] + (p[1] + p[2]) * bc]
    for i in range(1, T):
        spec.append(p[0] + p[1] * int(e[i - 1]) ** 2 + p[2] * spec[-1])
    M = env.mod('frds.algorithms', ext=ext).GARCHModel
    env.eq(M.compute_variance(p, e, bc, env.asarray([[lo, up]] * T)), env.asarray(spec), 'variance')
