"""C13 DCC fit"""
import math
from symx.harness import ob, UTILS
from props import garchspec as G
from props.optspec import stub, feasible_equiv
from props.c03 import pair

EXT = dict(ext=True, exts=[UTILS])
X = (False, True)


class Stop(Exception): pass


def margin(env, A, gjr, i, e, v):
    """an estimated univariate model with arbitrary estimates, residuals e, variances v"""
    m = (A.GJRGARCHModel if gjr else A.GARCHModel)(env.asarray([0.5, -1.0, 0.25][:len(e)]))
    p = [env.real(f'mu{i}'), env.real(f'omega{i}', pos=True), env.real(f'alpha{i}', nonneg=True)] + ([env.real(f'gamma{i}', nonneg=True)] if gjr else []) + [env.real(f'beta{i}', nonneg=True)]
    l = env.real(f'll{i}')
    m.parameters = type(m).Parameters(*p, loglikelihood=l)
    m.resids, m.sigma2 = env.asarray(e), env.asarray(v)
    m.estimation_success = True
    return m, p, l


def dcc(env, gjr, ext=False, z=None, given=True):
    A = env.mod('frds.algorithms', ext=ext)
    if z is None: z = [0.5, -1.0, 0.25], [1.0, 0.5, -0.75], [1.0, 1.5, 2.0], [2.0, 1.0, 0.5]
    z1, z2, s1, s2 = z
    m1, p1, l1 = margin(env, A, gjr, 1, [z1[t] * s1[t] for t in range(len(z1))], [s * s for s in s1])
    m2, p2, l2 = margin(env, A, gjr, 2, [z2[t] * s2[t] for t in range(len(z1))], [s * s for s in s2])
    C = A.GJRGARCHModel_DCC if gjr else A.GARCHModel_DCC
    if given: c = C(m1, m2)
    else:
        c = C(m1.returns, m2.returns)
        for own, m in ((c.model1, m1), (c.model2, m2)):
            own.parameters, own.resids, own.sigma2, own.estimation_success = m.parameters, m.resids, m.sigma2, True
        m1, m2 = c.model1, c.model2
    return c, (m1, m2), p1 + p2, l1 + l2


def clipped(env, r):
    if env.is_true(r < -0.99): return -0.99
    if env.is_true(r > 0.99): return 0.99
    return r


@ob('C13', quick=[dict(gjr=g, ext=x, T=3) for g in X for x in X], thorough=[dict(gjr=g, ext=x, T=T) for g in X for x in X for T in (3, 4)],
    bounds='T = 3 (4 thorough): arbitrary univariate estimates and log-likelihoods, non-constant standardised residuals, positive variances; a, b >= 0, a + b < 1; every clipping pattern of the correlations', max_paths=3000, **EXT)
def objective(env, gjr, ext, T):
    z1, z2, s1, s2, a, b = pair(env, T)
    rho, _ = G.dcc(env, z1, z2, a, b)
    c, ms, ps, l1 = dcc(env, gjr, ext, (z1, z2, s1, s2))
    l2 = 0
    for t in range(T):
        r = clipped(env, rho[t]); q = 1 - r * r
        l2 = l2 - (env.log(q) + (z1[t] * z1[t] - 2 * r * z1[t] * z2[t] + z2[t] * z2[t]) / q - z1[t] * z1[t] - z2[t] * z2[t]) / 2
    env.eq(c.loglikelihood_model([a, b]), -(l1 + l2), 'objective')


def problem(env, **k):
    def handler(p): raise Stop
    calls = stub(env, handler)
    c, ms, ps, ll = dcc(env, **k)
    return calls, c, ms, ps, ll


@ob('C13', quick=[dict(gjr=g) for g in X], bounds='(a, b) arbitrary', max_paths=3000)
def feasible_set(env, gjr):
    calls, c, ms, ps, ll = problem(env, gjr=gjr)
    c.starting_values = lambda: [0.1, 0.8]
    try: c.fit()
    except Stop: pass
    env.check(len(calls) == 1, 'only the correlation parameters are estimated')
    x = env.vec('x', 2)
    lim = [x[0] >= 0, x[0] <= 1, x[1] >= 0, x[1] <= 1, x[0] + x[1] <= 1]
    feasible_equiv(env, calls[0], env.asarray(x), lim, lim, 'parameter limits')
    a, b = env.real('a', nonneg=True), env.real('b', nonneg=True)
    env.assume(a + b < 0.95)
    env.eq(calls[0].objective(env.asarray([a, b])), c.loglikelihood_model(env.asarray([a, b])), 'the objective is the DCC objective')


GRID = [(0.01 + 0.49 * i / 9, 0.6 + 0.35 * j / 9) for i in range(10) for j in range(10)]
ADM = [g for g in GRID if g[0] + g[1] < 1]


@ob('C13', quick=[dict(gjr=False, ks=(0, 7, len(ADM) - 1))], thorough=[dict(gjr=g, ks=tuple(range(0, len(ADM), 3))) for g in X],
    bounds='the log-likelihoods of the grid pairs are arbitrary numbers, at most two of the admissible ones different from the rest, the inadmissible ones higher than all', max_paths=6000)
def grid_start(env, gjr, ks):
    calls, c, ms, ps, ll = problem(env, gjr=gjr)
    j = env.choose(len(ADM), 'best'); k = ks[env.choose(len(ks), 'other')]
    base = env.real('level'); d = env.real('lead', pos=True); o = env.real('other')
    env.assume(o < d)
    seen = []
    def f(params):
        a, b = float(params[0]), float(params[1])
        seen.append(1)
        if a + b >= 1: return -(base + 2 * d)
        w = [i for i, g in enumerate(ADM) if abs(g[0] - a) < 1e-9 and abs(g[1] - b) < 1e-9]
        if len(w) != 1: return -(base + 2 * d)
        return -(base + (d if w[0] == j else o if w[0] == k else 0.0))
    c.loglikelihood_model = f
    try: c.fit()
    except Stop: pass
    if not seen: env.unsupported('the grid search does not call loglikelihood_model')
    x0 = calls[0].x0
    env.eq(env.asarray([x0[0], x0[1]]), env.asarray(ADM[j]), 'starting values: the best admissible pair')


@ob('C13', quick=[dict(gjr=g, given=v) for g in X for v in X], bounds='arbitrary univariate estimates, residuals and variances, solution and objective value; success after zero or one failure', max_paths=3000)
def report(env, gjr, given):
    xs = [env.vec(f'x{k}', 2) for k in range(3)]; fs = [env.real(f'f{k}') for k in range(3)]
    first = env.choose(2, 'first attempt fails')
    n = []
    def handler(p):
        k = len(n); n.append(1)
        return env.asarray(xs[k]), fs[k], k >= first
    stub(env, handler)
    c, ms, ps, ll = dcc(env, gjr, given=given)
    c.starting_values = lambda: [0.1, 0.8]
    before = [(dict(m.parameters.__dict__), m.resids, m.sigma2) for m in ms]
    env.check(c.model1 is ms[0] and c.model2 is ms[1], 'the estimated models passed in are used')
    if first:
        c.fit()
        env.check(not c.estimation_success, 'success flag after a failure')
    names = [f + str(i) for i in (1, 2) for f in (('mu', 'omega', 'alpha', 'gamma', 'beta') if gjr else ('mu', 'omega', 'alpha', 'beta'))]
    for rep in range(2):
        q = c.fit()
        for w, s in ((q, 'returned'), (c.parameters, 'stored')):
            env.check(w is not None, f'parameters are {s}')
            env.eq(env.asarray([getattr(w, f) for f in names]), env.asarray(ps), f'{s} univariate estimates')
            env.eq(env.asarray([w.a, w.b, w.loglikelihood]), env.asarray([xs[first][0], xs[first][1], -fs[first]]), f'{s} a, b, log-likelihood')
        env.check(bool(c.estimation_success), 'success flag')
    for m, (p, r, v) in zip(ms, before):
        env.check(bool(m.estimation_success), 'univariate models stay estimated')
        for f in ('mu', 'omega', 'alpha', 'beta', 'loglikelihood') + (('gamma',) if gjr else ()): env.eq(getattr(m.parameters, f), p[f], 'univariate ' + f)
        env.eq(m.resids, r, 'univariate residuals are kept'); env.eq(m.sigma2, v, 'univariate variances are kept')
