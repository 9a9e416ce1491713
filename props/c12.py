"""C12 DCC correlations are valid correlations"""
from symx.harness import ob
from props import garchspec as G
from props.c03 import EU, pair, dcc_models

B = 'arbitrary non-constant standardised residuals, positive variances; a, b >= 0, a + b < 1'
X = (False, True)


@ob('C12', quick=[dict(T=3, ext=x) for x in X], bounds='T = 3: ' + B, **EU)
def range_(env, T, ext):
    z1, z2, s1, s2, a, b = pair(env, T)
    G.dcc(env, z1, z2, a, b, psd=True)
    M = env.mod('frds.algorithms', ext=ext)
    r = dcc_models(env, M, 'GARCHModel_DCC', z1, z2, s1, s2).conditional_correlations(a, b)
    for t in range(T):
        env.check(r[t] * r[t] <= 1 + 1e-12, f'correlation {t} lies in [-1, 1]')


@ob('C12', quick=[dict(T=T, ext=x) for T in (3, 4) for x in X], thorough=[dict(T=T, ext=x) for T in (3, 4, 6) for x in X], bounds='T <= 4 (6 thorough): ' + B, **EU)
def symmetry(env, T, ext):
    z1, z2, s1, s2, a, b = pair(env, T)
    G.dcc(env, z1, z2, a, b)
    M = env.mod('frds.algorithms', ext=ext)
    f = lambda *x: dcc_models(env, M, 'GARCHModel_DCC', *x).conditional_correlations(a, b)
    r = f(z1, z2, s1, s2)
    env.eq(f(z2, z1, s2, s1), r, 'series exchanged')
    env.eq(f([-z for z in z1], z2, s1, s2), [-r[t] for t in range(T)] if isinstance(r, list) else -r, 'sign of the first series flipped')
    env.eq(f(z1, [-z for z in z2], s1, s2), -r, 'sign of the second series flipped')


@ob('C12', quick=[dict(T=T, ext=x) for T in (2, 3) for x in X], bounds='T <= 3: a series paired with itself; ' + B, **EU)
def itself(env, T, ext):
    z1, _, s1, _, a, b = pair(env, T)
    G.dcc(env, z1, z1, a, b)
    M = env.mod('frds.algorithms', ext=ext)
    r = dcc_models(env, M, 'GARCHModel_DCC', z1, z1, s1, s1).conditional_correlations(a, b)
    env.eq(r, env.asarray([1.0] * T), 'correlation with itself')
