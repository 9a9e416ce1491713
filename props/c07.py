"""C07 the problem that a univariate fit optimises"""
from symx.harness import ob, UTILS
from props import garchspec as G
from props.optspec import stub, feasible_equiv
from props.c05 import admissible

EXT = dict(ext=True, exts=[UTILS])
X = (False, True)


class Stop(Exception): pass


def problem(env, r, gjr, zero, ext=False, prep=None):
    """the minimisation problem given to the optimiser by fit()"""
    def handler(p): raise Stop
    calls = stub(env, handler)
    A = env.mod('frds.algorithms', ext=ext)
    m = (A.GJRGARCHModel if gjr else A.GARCHModel)(r, zero_mean=zero)
    if prep: prep(m)
    try: m.fit()
    except Stop: pass
    return calls, m


def start(m, n):
    """instead of the grid search: fixed numbers"""
    m.starting_values = lambda resids: [0.5, 0.1, 0.8] if n == 3 else [0.5, 0.1, 0.05, 0.7]


@ob('C07', quick=[dict(gjr=g, zero=z) for g in X for z in X], bounds='parameter vector arbitrary; two arbitrary returns', max_paths=3000)
def feasible_set(env, gjr, zero):
    r = env.asarray([0.5, -1.0, 0.25]); n = 4 if gjr else 3
    calls, m = problem(env, r, gjr, zero)
    env.check(len(calls) == 1, 'one optimisation')
    p = calls[0]
    k = n if zero else n + 1
    env.check(len(p.x0) == k, 'number of parameters')
    x = env.vec('x', k)
    v = x if zero else x[1:]
    om, al, be = v[0], v[1], v[-1]
    ga = v[2] if gjr else 0.0
    per = al + be + ga / 2
    coef = [al, be] + ([ga] if gjr else [])
    must = [om >= 1e-6, per <= 1] + [c >= 1e-6 for c in coef] + [c <= 1 for c in coef]
    may = [om >= 1e-6, per <= 1] + [c >= 0 for c in coef] + [c <= 1 for c in coef]
    feasible_equiv(env, p, env.asarray(x), must, may, 'parameter limits')


@ob('C07', quick=[dict(gjr=g, zero=z, ext=x) for g in X for z in X for x in X], bounds='two arbitrary returns, arbitrary admissible parameters; EWMA variances inside the global limits, no variance bound active in the second period', max_paths=3000, **EXT)
def objective(env, gjr, zero, ext):
    T = 2; n = 4 if gjr else 3
    r = env.arr('r', T)
    mu0 = 0.0 if zero else G.mean(r)
    e0 = [r[t] - mu0 for t in range(T)]
    mx = env.max(e0[0] * e0[0], e0[1] * e0[1])
    bc = env.define(G.backcast(e0)); b = [env.define(v) for v in G.ewma(e0, bc, 0.94)]
    for v in b: env.assume(v > 0); env.assume(v > G.var(e0) / 1e8); env.assume(v < 1e7 * (1 + mx))
    p = admissible(env, gjr)
    mu = 0.0 if zero else env.real('mu')
    e = [r[t] - mu for t in range(T)]
    v = (G.gjr if gjr else G.garch)(env, p, e, bc, None, name=env.define)
    env.assume(v[1] > b[1] / 1e6); env.assume(v[1] < b[1] * 1e6)
    calls, m = problem(env, r, gjr, zero, ext, lambda m: start(m, n))
    x0 = calls[0].x0
    if not zero: env.eq(x0[0], mu0, 'starting mean')
    got = calls[0].objective(env.asarray(([] if zero else [mu]) + p))
    env.eq(got, -G.loglik(env, e, v), 'objective')


def grid(gjr):
    g = [0.01, 0.05, 0.1, 0.2]; P = [0.5, 0.7, 0.9, 0.98]
    if gjr: return [(1 - p, a, c, p - a - c / 2) for a in g for c in g for p in P]
    return [(1 - p, a, p - a) for a in g for p in P]


N = lambda gjr: 64 if gjr else 16


GB = 'the log-likelihoods of the grid candidates are arbitrary numbers, at most two of them different from the rest; '


@ob('C07', quick=[dict(gjr=g, zero=z, js=(2, 9)) for g in X for z in X], bounds=GB + 'two arbitrary distinct returns (EWMA variances inside the global limits), two choices of the best candidate', max_paths=6000)
def grid_scale(env, gjr, zero, js):
    r = env.arr('r', 2)
    env.assume(G.var(r) > 0)
    mu0 = 0.0 if zero else G.mean(r)
    e0 = [r[t] - mu0 for t in range(2)]
    b = G.ewma(e0, G.backcast(e0), 0.94)
    env.assume(e0[0] * e0[0] >= e0[1] * e0[1])
    for v in b: env.assume(v > G.var(e0) / 1e8); env.assume(v < 1e7 * (1 + e0[0] * e0[0]))
    grid_check(env, r, gjr, zero, js[env.choose(len(js), 'best')], 0)


@ob('C07', quick=[dict(gjr=False, zero=z, ks=tuple(range(16))) for z in X] + [dict(gjr=True, zero=False, ks=(0, 63))], thorough=[dict(gjr=False, zero=z, ks=tuple(range(16))) for z in X] + [dict(gjr=True, zero=z, ks=tuple(range(0, 64, 3))) for z in X],
    bounds=GB + 'three given returns', max_paths=6000)
def grid_start(env, gjr, zero, ks):
    grid_check(env, env.asarray([0.5, -1.0, 0.25]), gjr, zero, env.choose(N(gjr), 'best'), ks[env.choose(len(ks), 'other')])


def grid_check(env, r, gjr, zero, j, k):
    T = len(r)
    W = grid(gjr); var = G.var(r)
    base = env.real('level'); d = env.real('lead', pos=True); o = env.real('other')
    env.assume(o < d)
    calls = []; used = []
    def prep(m):
        def cv(params, resids, backcast, vb):
            calls.append([params[i] for i in range(len(params))])
            return env.asarray([float(len(calls))] * T)
        def ll(resids, sigma2):
            used.append(1)
            i = int(float(sigma2[0])) - 1
            w = [c for c in range(len(W)) if all(abs(float(a) - b) < 1e-9 for a, b in zip(calls[i][1:], W[c][1:]))]
            if len(w) != 1: env.fail(f'candidate {calls[i][1:]} is not in the grid'); raise Stop
            return base + (d if w[0] == j else o if w[0] == k else 0.0)
        m.compute_variance = cv; m.loglikelihood = ll
    pr, m = problem(env, r, gjr, zero, prep=prep)
    if not pr: return
    if len(used) < len(calls): env.unsupported('the grid search does not call loglikelihood for every candidate')
    x0 = pr[0].x0
    v = x0 if zero else x0[1:]
    env.check(len(calls) >= len(W), 'every grid candidate is evaluated')
    env.eq(env.asarray([v[i] for i in range(len(W[0]))]), env.asarray([W[j][0] * var, *W[j][1:]]), 'starting values: the best grid candidate')
    if not zero: env.eq(x0[0], G.mean(r), 'starting mean')
