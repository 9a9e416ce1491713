"""C02 GJR-GARCH variance series and forecast"""
import numpy as np
from symx.harness import ob, UTILS
from props import garchspec as G
from props.c01 import kinds, year

EXT = dict(ext=True, exts=[UTILS])
B = 'residuals of any sign, parameters, backcast and per-period bounds: arbitrary reals (bounds positive, lower <= upper); every sign pattern and every combination of bound adjustments'


def inputs(env, T):
    p = G.params(env, ['omega', 'alpha', 'gamma', 'beta'])
    e = env.arr('e', T); bc = env.real('backcast')
    lo = env.vec('lo', T, pos=True); w = env.vec('w', T, nonneg=True)
    return p, e, bc, [(lo[t], lo[t] + w[t]) for t in range(T)]


C = [dict(T=T, ext=x, form=f) for T, x, f in [(1, False, 'list'), (1, True, 'list'), (2, False, 'tuple'), (2, True, 'array'), (3, False, 'array'), (3, True, 'list')]]


@ob('C02', quick=C, thorough=C + [dict(T=4, ext=False, form='list'), dict(T=4, ext=True, form='tuple')], bounds='T <= 3 (4 thorough): ' + B, max_paths=4000, **EXT)
def series(env, T, ext, form):
    p, e, bc, vb = inputs(env, T)
    M = env.mod('frds.algorithms', ext=ext).GJRGARCHModel
    got = M.compute_variance(kinds(env, p, form), e, bc, env.asarray([list(r) for r in vb]))
    env.eq(got, env.asarray(G.gjr(env, p, e, bc, vb)), 'variance')


@ob('C02', quick=[dict(T=10, ext=False, neg=n) for n in (0, 1, 2)] + [dict(T=10, ext=True, neg=n) for n in (0, 1, 2)], thorough=[dict(T=30, ext=x, neg=n) for x in (False, True) for n in (0, 1, 2)],
    bounds='T = 10 (30 thorough), values for which no bound is active; sign patterns: all positive, alternating, all negative', history=False, **EXT)
def long_series(env, T, ext, neg):
    p, e, bc, vb = inputs(env, T)
    raw = [p[0] + (p[1] + p[2] / 2 + p[3]) * bc]
    for t in range(T):
        if neg == 2 or (neg == 1 and t % 2): env.assume(e[t] < 0)
        else: env.assume(e[t] > 0)
    for t in range(1, T):
        v = p[0] + p[1] * e[t - 1] * e[t - 1] + p[3] * raw[-1]
        if neg == 2 or (neg == 1 and (t - 1) % 2): v = v + p[2] * e[t - 1] * e[t - 1]
        raw.append(v)
        env.assume(raw[t] > vb[t][0]); env.assume(raw[t] < vb[t][1])
    M = env.mod('frds.algorithms', ext=ext).GJRGARCHModel
    env.eq(M.compute_variance(p, e, bc, env.asarray([list(r) for r in vb])), env.asarray(raw), 'variance')


@ob('C02', quick=[dict(T=T) for T in (1, 2, 3, 5)], thorough=[dict(T=T) for T in (1, 2, 3, 5, 8)], bounds='T <= 5 (8 thorough); residuals of any sign, arbitrary parameters and initial variance', max_paths=1500)
def forecast(env, T):
    p = G.params(env, ['omega', 'alpha', 'gamma', 'beta'])
    e = env.arr('e', T); v0 = env.real('v0')
    M = env.mod('frds.algorithms').GJRGARCHModel
    P = M.Parameters(mu=env.real('mu'), omega=p[0], alpha=p[1], gamma=p[2], beta=p[3])
    got = M.forecast_variance(P, e, v0)
    env.eq(got, env.asarray(G.gjr(env, p, e, None, None, first=v0)[1:]), 'forecast')


@ob('C02', quick=[dict(T=3)], thorough=[dict(T=5)], bounds='3 residuals, at least one exactly zero: no gamma term for a zero residual', max_paths=1500, **EXT)
def zero_residual(env, T):
    p, e, bc, vb = inputs(env, T)
    k = env.choose(T - 1, 'zero')
    e[k] = 0.0
    for ext in (False, True):
        M = env.mod('frds.algorithms', ext=ext).GJRGARCHModel
        env.eq(M.compute_variance(p, e, bc, env.asarray([list(r) for r in vb])), env.asarray(G.gjr(env, p, e, bc, vb)), f'variance ext={ext}')


@ob('C02', quick=[dict(T=250, ext=x) for x in (False, True)], thorough=[dict(T=1000, ext=x) for x in (False, True)], bounds='T = 250 (1000 thorough): the residuals at positions 0, 1, T/2, T-1 any reals in [-3, 3] and the backcast any in [0.5, 2], the rest, the parameters and the bounds listed numbers; bounds bind from below and above every 50 periods', max_paths=100, time_s=200, **EXT)
def long_history(env, T, ext):
    e, vb = year(env, T)
    p, bc = [0.05, 0.03, 0.08, 0.85], env.real('backcast', lo=0.5, hi=2.0)
    M = env.mod('frds.algorithms', ext=ext).GJRGARCHModel
    env.eq(M.compute_variance(p, e, bc, env.asarray([list(r) for r in vb])), env.asarray(G.gjr(env, p, e, bc, vb)), 'variance')


@ob('C02', quick=[dict(T=250)], thorough=[dict(T=1000)], bounds='T = 250 (1000 thorough): the residuals at positions 0, 1, T/2, T-1 any reals in [-3, 3] and any initial variance in [0.5, 2], the rest and the parameters listed numbers', max_paths=100, time_s=200, **EXT)
def long_forecast(env, T):
    e, _ = year(env, T)
    p, v0 = [0.05, 0.03, 0.08, 0.85], env.real('v0', lo=0.5, hi=2.0)
    M = env.mod('frds.algorithms').GJRGARCHModel
    got = M.forecast_variance(M.Parameters(mu=0.1, omega=p[0], alpha=p[1], gamma=p[2], beta=p[3]), e, v0)
    env.eq(got, env.asarray(G.gjr(env, p, e, None, None, first=v0)[1:]), 'forecast')


@ob('C02', quick=[dict(T=6, what=w, t=t) for w in ('python', 'compiled', 'forecast') for t in ('int64', 'float32')], bounds='6 listed residuals held as integers or in single precision; omega in [0.25, 0.75], backcast and initial variance in [0.5, 1.5], other parameters listed, bounds that never bind', max_paths=60, **EXT)
def typed(env, T, what, t):
    p = [env.real('omega', lo=0.25, hi=0.75), 0.125, 0.0625, 0.75]; v0 = env.real('v0', lo=0.5, hi=1.5)
    e = np.array([2, -1, 3, 0, -2, 1], dtype=t)
    lo, up = 0.01, 1000.0
    spec = [v0 if what == 'forecast' else p[0] + (p[1] + p[2] / 2 + p[3]) * v0]
    for i in range(1, T):
        k = int(e[i - 1])
        spec.append(p[0] + (p[1] + p[2] * (1 if k < 0 else 0)) * k ** 2 + p[3] * spec[-1])
    M = env.mod('frds.algorithms', ext=what == 'compiled').GJRGARCHModel
    if what == 'forecast':
        got, spec = M.forecast_variance(M.Parameters(mu=0.1, omega=p[0], alpha=p[1], gamma=p[2], beta=p[3]), e, v0), spec[1:]
    else: got = M.compute_variance(p, e, v0, env.asarray([[lo, up]] * T))
    env.eq(got, env.asarray(spec), 'variance')
