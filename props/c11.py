"""C11 DCC conditional correlations"""
from symx.harness import ob
from props import garchspec as G
from props.c03 import EU, pair, dcc_models

B = 'arbitrary non-constant standardised residuals and positive variances of two fitted models; a, b >= 0, a + b < 1; GARCH and GJR-GARCH margins'
C = [dict(T=T, ext=x, cls=c) for T in (2, 3, 4) for x in (False, True) for c in ('GARCHModel_DCC', 'GJRGARCHModel_DCC') if T < 4 or c[1] == 'A']


@ob('C11', quick=C, thorough=C + [dict(T=T, ext=x, cls='GJRGARCHModel_DCC') for T in (5, 7) for x in (False, True)], bounds='T <= 4 (7 thorough): ' + B, **EU)
def correlations(env, T, ext, cls):
    z1, z2, s1, s2, a, b = pair(env, T)
    rho, _ = G.dcc(env, z1, z2, a, b)
    M = env.mod('frds.algorithms', ext=ext)
    env.eq(dcc_models(env, M, cls, z1, z2, s1, s2).conditional_correlations(a, b), env.asarray(rho), 'conditional correlations')


@ob('C11', quick=[dict(T=T, ext=x) for x in (False, True) for T in (12, 40)], thorough=[dict(T=T, ext=x) for x in (False, True) for T in (12, 40, 100)], bounds='T <= 40 (100 thorough): a and b arbitrary, residuals are numbers except the first of each series', **EU)
def long_series(env, T, ext):
    z1 = [((t * 7) % 11 - 5) / 4.0 for t in range(T)]; z2 = [((t * 5 + 3) % 13 - 6) / 5.0 for t in range(T)]
    s1 = [1.0 + (t % 3) / 2.0 for t in range(T)]; s2 = [2.0 - (t % 4) / 3.0 for t in range(T)]
    a, b = env.real('a', nonneg=True), env.real('b', nonneg=True)
    env.assume(1 - a - b > 0)
    rho, _ = G.dcc(env, z1, z2, a, b)
    M = env.mod('frds.algorithms', ext=ext)
    env.eq(dcc_models(env, M, 'GARCHModel_DCC', z1, z2, s1, s2).conditional_correlations(a, b), env.asarray(rho), 'conditional correlations')
