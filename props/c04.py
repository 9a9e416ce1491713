"""C04 backcast, EWMA and variance bounds"""
from symx.harness import ob, UTILS
from props import garchspec as G

EXT = dict(ext=True, exts=[UTILS])


@ob('C04', quick=[dict(T=T) for T in (1, 2, 5, 74, 75, 76, 80)], thorough=[dict(T=T) for T in (1, 2, 3, 5, 10, 50, 74, 75, 76, 77, 150, 300)], bounds='T in {1, 2, 5, 74, 75, 76, 80} (thorough: to 300), arbitrary residuals')
def backcast(env, T):
    e = env.arr('e', T)
    M = env.mod('frds.algorithms').GARCHModel
    got = M.backcast(e)
    env.eq(got, G.backcast(e), 'backcast')


@ob('C04', quick=[dict(T=T, ext=x, lam=l) for T in (1, 2, 3, 6) for x in (False, True) for l in (0, 1)], thorough=[dict(T=T, ext=x, lam=l) for T in (1, 4, 10, 80) for x in (False, True) for l in (0, 1)],
    bounds='T <= 6 (80 thorough), arbitrary residuals, initial value and decay factor (lam = 1) or the default 0.94 (lam = 0)', **EXT)
def ewma(env, T, ext, lam):
    e = env.arr('e', T); v0 = env.real('v0')
    M = env.mod('frds.algorithms', ext=ext).GARCHModel
    if lam and T > 12: l = 0.7
    elif lam: l = env.real('lam')
    else: l = 0.94
    got = M.ewma(e, v0, l) if lam else M.ewma(e, v0)
    env.eq(got, env.asarray(G.ewma(e, v0, l)), 'ewma')


@ob('C04', quick=[dict(T=T, ext=x) for T in (1, 2, 3) for x in (False, True)], thorough=[dict(T=T, ext=x) for T in (1, 2, 3, 4) for x in (False, True)], bounds='T <= 3 (4 thorough), arbitrary residuals; every clip and maximum decided by the solver', max_paths=3000, **EXT)
def bounds(env, T, ext):
    e = env.arr('e', T)
    M = env.mod('frds.algorithms', ext=ext).GARCHModel
    got = M.variance_bounds(e)
    env.eq(got, env.asarray([list(r) for r in G.var_bounds(env, e)]), 'variance bounds', scale=1e-30)


@ob('C04', quick=[dict(T=77, ext=x) for x in (False, True)], thorough=[dict(T=T, ext=x) for T in (75, 77, 150) for x in (False, True)], bounds='77 residuals of which four (0, 1, 74, 76) are arbitrary and the rest concrete; the largest squared residual is the concrete one', max_paths=400, **EXT)
def bounds_long(env, T, ext):
    e = []
    for t in range(T):
        if t in (0, 1, 74, T - 1): e.append(env.real(f'e{t}', lo=-2, hi=2))
        else: e.append(3.0 if t == 40 else ((-1) ** t) * (0.5 + (t % 7) / 5.0))
    e = env.asarray(e)
    M = env.mod('frds.algorithms', ext=ext).GARCHModel
    b = G.ewma(e, G.backcast(e), 0.94)
    got = M.variance_bounds(e)
    env.eq(got, env.asarray([[x / 1e6, x * 1e6] for x in b]), 'variance bounds')


@ob('C04', quick=[dict(T=T, ext=x) for T in (77, 78) for x in (False, True)], thorough=[dict(T=T, ext=x) for T in (77, 78, 79, 100) for x in (False, True)],
    bounds='75 zero residuals followed by arbitrary ones (beyond three: given numbers), so that the lower limit of the EWMA variances binds', max_paths=3000, **EXT)
def quiet_start(env, T, ext):
    e = quiet(env, T)
    M = env.mod('frds.algorithms', ext=ext).GARCHModel
    env.eq(M.variance_bounds(e), env.asarray([list(r) for r in G.var_bounds(env, e)]), 'variance bounds', scale=1e-30)


def quiet(env, T):
    return env.asarray([0.0] * 75 + [env.real(f'e{t}') if t < 78 else 1.5 - t % 3 for t in range(75, T)])
