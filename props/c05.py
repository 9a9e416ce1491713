"""C05 conditional variances stay positive and bounded"""
from symx.harness import ob, UTILS
from props import garchspec as G

EXT = dict(ext=True, exts=[UTILS])
X = (False, True)
B = 'arbitrary residuals, omega > 0, alpha, gamma, beta >= 0, backcast >= 0, positive bounds with lower < upper'


def admissible(env, gjr):
    p = [env.real('omega', pos=True), env.real('alpha', nonneg=True)]
    if gjr: p.append(env.real('gamma', nonneg=True))
    return p + [env.real('beta', nonneg=True)]


@ob('C05', quick=[dict(T=T, ext=x, gjr=g) for T in (1, 2, 3) for x in X for g in X], thorough=[dict(T=T, ext=x, gjr=g) for T in (1, 2, 3, 4) for x in X for g in X],
    bounds='T <= 3 (4 thorough): ' + B, max_paths=3000, **EXT)
def bounded(env, T, ext, gjr):
    p = admissible(env, gjr)
    e = env.arr('e', T); bc = env.real('backcast', nonneg=True)
    lo = env.vec('lo', T, pos=True); w = env.vec('w', T, pos=True)
    up = [lo[t] + w[t] for t in range(T)]
    A = env.mod('frds.algorithms', ext=ext)
    M = A.GJRGARCHModel if gjr else A.GARCHModel
    got = M.compute_variance(p, e, bc, env.asarray([[lo[t], up[t]] for t in range(T)]))
    om, al, ga, be = p if gjr else (p[0], p[1], 0.0, p[2])
    env.check(got[0] > 0, 'variance 0 is positive')
    for t in range(1, T):
        env.check(got[t] >= lo[t], f'variance {t} is at least its lower bound')
        env.check(got[t] > 0, f'variance {t} is positive')
        raw = om + al * e[t - 1] * e[t - 1] + be * got[t - 1]
        if env.is_true(e[t - 1] < 0): raw = raw + ga * e[t - 1] * e[t - 1]
        if env.is_true(raw > up[t]): env.check(got[t] <= up[t] + env.max(1000.0, env.log(raw / up[t])), f'variance {t} is at most its upper bound plus max(1000, ln)')
        else: env.check(got[t] <= up[t], f'variance {t} is at most its upper bound')
    l = M.loglikelihood(e, got)
    env.check(l - l == 0, 'log-likelihood is a finite number')


@ob('C05', quick=[dict(T=T, ext=x) for T in (2, 3) for x in X], thorough=[dict(T=T, ext=x) for T in (2, 3, 4) for x in X], bounds='T <= 3 (4 thorough): any non-constant residuals', max_paths=3000, **EXT)
def var_bounds(env, T, ext):
    e = env.arr('e', T)
    env.assume(G.var(e) > 0)
    M = env.mod('frds.algorithms', ext=ext).GARCHModel
    b = M.variance_bounds(e)
    for t in range(T):
        env.check(b[t, 0] > 0, f'lower bound {t} is positive')
        env.check(b[t, 0] < b[t, 1], f'lower bound {t} is below the upper bound')


@ob('C05', quick=[dict(T=T) for T in (1, 2, 4, 20)], thorough=[dict(T=T) for T in (1, 2, 4, 20, 80)], bounds='T <= 20 (80 thorough): any residuals (signs alternate) whose squares lie in any given interval', max_paths=3000)
def backcast(env, T):
    lo = env.real('smallest', nonneg=True); w = env.real('spread', nonneg=True)
    u = env.vec('position', T, lo=0, hi=1)
    e = env.asarray([env.sqrt(lo + w * u[t]) * (-1) ** t for t in range(T)])
    v = env.mod('frds.algorithms').GARCHModel.backcast(e)
    hi = lo + w
    for t in range(min(T, 75)): env.prove_fact(w * (1 - u[t]) >= 0, [w >= 0, u[t] <= 1], 'position within the interval')
    env.check(v >= lo - hi * 1e-9, 'backcast is at least the smallest squared residual')
    env.check(v <= hi + hi * 1e-9, 'backcast is at most the largest squared residual')


@ob('C05', quick=[dict(T=T, ext=x) for T in (77, 78) for x in X], bounds='75 zero residuals followed by two or three arbitrary ones, not all zero: the lower limit binds', max_paths=3000, **EXT)
def quiet_start(env, T, ext):
    x = env.vec('e', T - 75)
    e = env.asarray([0.0] * 75 + x)
    env.assume(sum(v * v for v in x) > 0)
    M = env.mod('frds.algorithms', ext=ext).GARCHModel
    b = M.variance_bounds(e)
    for t in range(T):
        env.check(b[t, 0] > 0, f'lower bound {t} is positive')
        env.check(b[t, 0] < b[t, 1], f'lower bound {t} is below the upper bound')
