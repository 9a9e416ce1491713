"""C08 what a fitted univariate model reports"""
from symx.harness import ob, UTILS
from props import garchspec as G
from props.optspec import stub
from props.c05 import admissible
from props.c07 import start

EXT = dict(ext=True, exts=[UTILS])
X = (False, True)


def is_nan(x): return not hasattr(x, 'p') and x != x


def fields(p, gjr): return [p.mu, p.omega, p.alpha] + ([p.gamma] if gjr else []) + [p.beta]


@ob('C08', quick=[dict(gjr=g, zero=z, ext=x) for g in X for z in X for x in X], thorough=[dict(gjr=g, zero=z, ext=x, T=T) for g in X for z in X for x in X for T in (2, 3)],
    bounds='optimiser solution: any admissible parameters; two arbitrary returns (3 thorough), EWMA variances inside the global limits, no variance bound active; the optimiser evaluates the objective at another arbitrary point last', max_paths=3000, **EXT)
def success(env, gjr, zero, ext, T=2):
    n = 4 if gjr else 3
    r = env.arr('r', T)
    mu0 = 0.0 if zero else G.mean(r)
    e0 = [r[t] - mu0 for t in range(T)]
    mx = e0[0] * e0[0]
    for t in range(1, T): mx = env.max(mx, e0[t] * e0[t])
    bc = env.define(G.backcast(e0)); b = [env.define(v) for v in G.ewma(e0, bc, 0.94)]
    for v in b: env.assume(v > 0); env.assume(v > G.var(e0) / 1e8); env.assume(v < 1e7 * (1 + mx))
    pts = []
    for k in ('', '_last'):
        p = [env.real('omega' + k, pos=True), env.real('alpha' + k, nonneg=True)] + ([env.real('gamma' + k, nonneg=True)] if gjr else []) + [env.real('beta' + k, nonneg=True)]
        mu = 0.0 if zero else env.real('mu' + k)
        e = [r[t] - mu for t in range(T)]
        v = (G.gjr if gjr else G.garch)(env, p, e, bc, None, name=env.define)
        for t in range(1, T): env.assume(v[t] > b[t] / 1e6); env.assume(v[t] < b[t] * 1e6)
        pts.append((mu, p, e, v))
    mu, p, e, v = pts[0]
    xs = [env.asarray(([] if zero else [q[0]]) + q[1]) for q in pts]
    f = -G.loglik(env, e, v)
    def handler(prob):
        got = prob.objective(xs[0])
        prob.objective(xs[1])
        return xs[0], f, True
    calls = stub(env, handler)
    A = env.mod('frds.algorithms', ext=ext)
    m = (A.GJRGARCHModel if gjr else A.GARCHModel)(r, zero_mean=zero)
    start(m, n)
    for rep in ('', ' (repeated fit)'):
        q = m.fit()
        env.check(q is not None, 'fit returns parameters' + rep)
        for w, s in ((q, 'returned'), (m.parameters, 'stored')):
            env.eq(env.asarray(fields(w, gjr)), env.asarray([mu] + p), f'{s} parameters{rep}')
            env.eq(w.loglikelihood, -f, f'{s} log-likelihood{rep}')
        env.check(bool(m.estimation_success), 'success flag' + rep)
        env.eq(m.resids, env.asarray(e), 'stored residuals' + rep)
        env.eq(m.sigma2, env.asarray(v), 'stored conditional variances' + rep)


@ob('C08', quick=[dict(gjr=g, zero=z) for g in X for z in X], bounds='the optimiser fails at an arbitrary admissible point', max_paths=3000)
def failure(env, gjr, zero):
    r = env.asarray([0.5, -1.0, 0.25])
    p = admissible(env, gjr)
    x = env.asarray(([] if zero else [env.real('mu')]) + p)
    f = env.real('fun')
    stub(env, lambda prob: (x, f, False))
    A = env.mod('frds.algorithms')
    m = (A.GJRGARCHModel if gjr else A.GARCHModel)(r, zero_mean=zero)
    start(m, 4 if gjr else 3)
    for rep in range(2):
        q = m.fit()
        env.check(not m.estimation_success, 'success flag stays false')
        for w in (q, m.parameters):
            if w is None: continue
            env.check(all(is_nan(c) for c in fields(w, gjr) + [w.loglikelihood]), 'parameters stay NaN')


@ob('C08', quick=[dict(gjr=g) for g in X], bounds='a failed fit followed by a successful one, arbitrary solution', max_paths=3000)
def retry(env, gjr):
    r = env.asarray([0.5, -1.0, 0.25])
    p = admissible(env, gjr); mu = env.real('mu')
    x = env.asarray([mu] + p); f = env.real('fun')
    n = []
    def handler(prob):
        n.append(1)
        return x, f, len(n) > 1
    stub(env, handler)
    A = env.mod('frds.algorithms')
    m = (A.GJRGARCHModel if gjr else A.GARCHModel)(r)
    start(m, 4 if gjr else 3)
    m.compute_variance = lambda *a: env.asarray([1.0, 1.0, 1.0])
    m.fit(); q = m.fit()
    env.check(bool(m.estimation_success), 'second attempt succeeds')
    env.eq(env.asarray(fields(q, gjr) + [q.loglikelihood]), env.asarray([mu] + p + [-f]), 'parameters')
