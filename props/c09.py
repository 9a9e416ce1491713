"""C09 CCC log-likelihood"""
import math
from symx.harness import ob, UTILS
from props import garchspec as G, longspec as L

EXT = dict(ext=True, exts=[UTILS])
X = (False, True)
B = 'arbitrary residuals, positive variances, |rho| < 1'


def biv(env, e1, v1, e2, v2, rho):
    r = 1 - rho * rho
    t = 0
    for i in range(len(e1)):
        z1, z2 = e1[i] / env.sqrt(v1[i]), e2[i] / env.sqrt(v2[i])
        t = t - math.log(2 * math.pi) - env.log(v1[i] * v2[i] * r) / 2 - (z1 * z1 - 2 * rho * z1 * z2 + z2 * z2) / (2 * r)
    return t


def model(env, T, ext=False, r=None):
    A = env.mod('frds.algorithms', ext=ext)
    r = r or (env.arr('r1', T), env.arr('r2', T))
    return A.GARCHModel_CCC(*r), A


def series(env, T):
    rho = env.real('rho', lo=-0.999, hi=0.999)
    return env.arr('e1', T), env.arr('v1', T, pos=True), env.arr('e2', T), env.arr('v2', T, pos=True), rho


@ob('C09', quick=[dict(T=T) for T in (1, 2, 4)], thorough=[dict(T=T) for T in (1, 2, 4, 12)], bounds='T <= 4 (12 thorough): ' + B)
def loglikelihood(env, T):
    e1, v1, e2, v2, rho = series(env, T)
    m, _ = model(env, T)
    env.eq(m.loglikelihood(e1, v1, e2, v2, rho), biv(env, e1, v1, e2, v2, rho), 'log-likelihood')


@ob('C09', quick=[dict(T=T) for T in (1, 2, 4)], thorough=[dict(T=T) for T in (1, 2, 4, 12)], bounds='T <= 4 (12 thorough): ' + B)
def relations(env, T):
    e1, v1, e2, v2, rho = series(env, T)
    m, A = model(env, T)
    env.eq(m.loglikelihood(e1, v1, e2, v2, 0.0), A.GARCHModel.loglikelihood(e1, v1) + A.GARCHModel.loglikelihood(e2, v2), 'uncorrelated: sum of the univariate log-likelihoods')
    env.eq(m.loglikelihood(e2, v2, e1, v1, rho), m.loglikelihood(e1, v1, e2, v2, rho), 'series swapped')


ACT = ['', 'lo1', 'lo2', 'up1', 'up2']


@ob('C09', quick=[dict(T=1, ext=x, act='') for x in X] + [dict(T=2, ext=x, act=a) for x in X for a in ACT], thorough=[dict(T=T, ext=x, act=a) for T in (2, 3) for x in X for a in ACT],
    bounds='T <= 2 (3 thorough): arbitrary means and non-constant residuals, omega > 0, alpha, beta >= 0, |rho| < 1; EWMA variances inside their global limits; no variance bound active, or the lower / upper one of one series in the second period', max_paths=3000, **EXT)
def objective(env, T, ext, act):
    p, rho, es, vs = region(env, T, act)
    r = [env.asarray([p[i][0] + es[i][t] for t in range(T)]) for i in (0, 1)]
    m, A = model(env, T, ext, r)
    junk = [env.asarray([[env.real(f'l{i}{t}', pos=True), env.real(f'u{i}{t}', pos=True)] for t in range(T)]) for i in (0, 1)]
    got = m.loglikelihood_model(env.asarray(p[0] + p[1] + [rho]), env.real('bc1', pos=True), env.real('bc2', pos=True), *junk)
    env.eq(got, -biv(env, es[0], vs[0], es[1], vs[1], rho), 'objective')


def region(env, T, act):
    """parameters, correlation, residuals and variances with the documented bounds either inactive or active where act says"""
    p = [[env.real(f'mu{i}'), env.real(f'omega{i}', pos=True), env.real(f'alpha{i}', nonneg=True), env.real(f'beta{i}', nonneg=True)] for i in (1, 2)]
    es = [env.vec(f'e{i}', T) for i in (1, 2)]
    rho = env.real('rho', lo=-0.999, hi=0.999)
    vs = []
    for i in (0, 1):
        e = es[i]
        m = e[0] * e[0]
        for t in range(1, T): m = env.max(m, e[t] * e[t])
        w = env.define(G.ewma(e, G.backcast(e), 0.94)[0])
        b = [env.define(x) for x in G.ewma(e, w, 0.94)]
        for x in b:
            env.assume(x > G.var(e) / 1e8); env.assume(x < 1e7 * (1 + m)); env.assume(x > 0)
        v = [env.define(p[i][1] + (p[i][2] + p[i][3]) * b[0])]
        for t in range(1, T):
            x = p[i][1] + p[i][2] * e[t - 1] * e[t - 1] + p[i][3] * v[-1]
            lo, up = b[t] / 1e6, b[t] * 1e6
            if act == f'lo{i + 1}' and t == 1: env.assume(x < lo); x = lo
            else: env.assume(x > lo)
            if act == f'up{i + 1}' and t == 1: env.assume(x > up); x = up + env.log(x / up)
            else: env.assume(x < up)
            v.append(env.define(x))
        vs.append(v)
    return p, rho, es, vs


@ob('C09', quick=[dict(T=120)], thorough=[dict(T=500)], bounds='T = 120 (500 thorough): |rho| < 1 arbitrary, residuals and variances arbitrary (variances positive) at positions 0, 1, T/2, T-1, listed numbers elsewhere')
def long_loglikelihood(env, T):
    e1, e2 = (env.asarray(L.mixed(env, f'e{k}', T, k, -3.0, 3.0)) for k in (1, 2))
    v1, v2 = (env.asarray(L.mixed(env, f'v{k}', T, k + 2, 0.5, 4.0, pos=True)) for k in (1, 2))
    rho = env.real('rho', lo=-0.999, hi=0.999)
    m, _ = model(env, T)
    env.eq(m.loglikelihood(e1, v1, e2, v2, rho), biv(env, e1, v1, e2, v2, rho), 'log-likelihood')
