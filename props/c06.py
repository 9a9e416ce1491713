"""C06 univariate log-likelihood and estimation objective"""
from symx.harness import ob, UTILS
from props import garchspec as G, longspec as L
from props.c01 import year
from props.c05 import admissible

EXT = dict(ext=True, exts=[UTILS])
X = (False, True)


@ob('C06', quick=[dict(T=T) for T in (1, 2, 5)], thorough=[dict(T=T) for T in (1, 2, 5, 40)], bounds='T <= 5 (40 thorough): arbitrary residuals, positive variances')
def loglikelihood(env, T):
    e = env.arr('e', T); v = env.arr('v', T, pos=True)
    A = env.mod('frds.algorithms')
    w = G.loglik(env, e, v)
    env.eq(A.GARCHModel.loglikelihood(e, v), w, 'log-likelihood')
    env.eq(A.GJRGARCHModel.loglikelihood(e, v), w, 'GJR log-likelihood')


@ob('C06', quick=[dict(T=T, ext=x, gjr=g, zero=z) for T in (1, 2, 3) for x in X for g in X for z in X], thorough=[dict(T=T, ext=x, gjr=g, zero=z) for T in (1, 2, 3, 4) for x in X for g in X for z in X],
    bounds='T <= 3 (4 thorough): arbitrary returns and mean, omega > 0, alpha, gamma, beta >= 0, backcast >= 0, positive bounds with lower <= upper; no variance exactly on its lower bound (that tie: C01)', max_paths=3000, **EXT)
def objective(env, T, ext, gjr, zero):
    p = admissible(env, gjr); mu = 0.0 if zero else env.real('mu')
    r = env.arr('r', T); bc = env.real('backcast', nonneg=True)
    lo = env.vec('lo', T, pos=True); w = env.vec('w', T, nonneg=True)
    vb = [(lo[t], lo[t] + w[t]) for t in range(T)]
    e = [r[t] - mu for t in range(T)]
    v = (G.gjr if gjr else G.garch)(env, p, e, bc, vb, name=env.define, ties=False)
    A = env.mod('frds.algorithms', ext=ext)
    m = (A.GJRGARCHModel if gjr else A.GARCHModel)(r, zero)
    got = m.loglikelihood_model(env.asarray(p if zero else [mu] + p), bc, env.asarray([list(b) for b in vb]), zero)
    env.eq(got, -G.loglik(env, e, v), 'objective')
    env.eq(m.loglikelihood_model(env.asarray(p if zero else [mu] + p), bc, env.asarray([list(b) for b in vb]), zero), got, 'objective evaluated again')


@ob('C06', quick=[dict(T=250)], thorough=[dict(T=1000)], bounds='T = 250 (1000 thorough): residuals and variances arbitrary (variances positive) at positions 0, 1, T/2, T-1, listed numbers elsewhere')
def long_loglikelihood(env, T):
    e = env.asarray(L.mixed(env, 'e', T, 1, -3.0, 3.0)); v = env.asarray(L.mixed(env, 'v', T, 2, 0.5, 4.0, pos=True))
    A = env.mod('frds.algorithms')
    w = G.loglik(env, e, v)
    env.eq(A.GARCHModel.loglikelihood(e, v), w, 'log-likelihood')
    env.eq(A.GJRGARCHModel.loglikelihood(e, v), w, 'GJR log-likelihood')


@ob('C06', quick=[dict(T=120, ext=x, gjr=g) for x in X for g in X], thorough=[dict(T=400, ext=x, gjr=g) for x in X for g in X],
    bounds='T = 120 (400 thorough): returns at positions 0, 1, T/2 any in [-3, 3], listed numbers elsewhere; listed parameters and bounds, which bind every 50 periods; zero mean', max_paths=100, time_s=200, **EXT)
def long_objective(env, T, ext, gjr):
    r, vb = year(env, T)
    p = [0.05, 0.03, 0.08, 0.85] if gjr else [0.05, 0.07, 0.9]
    bc = env.real('backcast', lo=0.5, hi=2.0)
    v = (G.gjr if gjr else G.garch)(env, p, r, bc, vb)
    A = env.mod('frds.algorithms', ext=ext)
    m = (A.GJRGARCHModel if gjr else A.GARCHModel)(r, True)
    got = m.loglikelihood_model(env.asarray(p), bc, env.asarray([list(b) for b in vb]), True)
    env.eq(got, -G.loglik(env, r, v), 'objective')
