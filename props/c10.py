"""C10 CCC fit"""
from symx.harness import ob, UTILS
from props import garchspec as G
from props.optspec import stub, feasible_equiv
from props.c08 import is_nan
from props.c09 import region, biv

EXT = dict(ext=True, exts=[UTILS])
NAMES = ['mu1', 'omega1', 'alpha1', 'beta1', 'mu2', 'omega2', 'alpha2', 'beta2', 'rho']


class Stop(Exception): pass


def estimated(env, m, p, e, v):
    """m behaves as a model estimated with parameters p, residuals e and variances v"""
    m.parameters = type(m).Parameters(*p, loglikelihood=0.0)
    m.resids, m.sigma2 = env.asarray(e), env.asarray(v)
    m.backcast_value = G.backcast(m.resids); m.var_bounds = env.asarray([[0.1, 10.0]] * len(e))
    m.estimation_success = True
    m.fit = lambda: m.parameters


def ccc(env, ext=False, T=3, sym=True):
    """a CCC model over two estimated univariate models"""
    A = env.mod('frds.algorithms', ext=ext)
    c = A.GARCHModel_CCC(env.asarray([0.5, -1.0, 0.25]), env.asarray([0.25, 1.0, -0.5]))
    ps, zs = [], []
    for i, m in ((1, c.model1), (2, c.model2)):
        p = [env.real(f'mu{i}'), env.real(f'omega{i}', pos=True), env.real(f'alpha{i}', nonneg=True), env.real(f'beta{i}', nonneg=True)]
        z = env.vec(f'z{i}', T) if sym else [[0.5, -1.0, 0.25], [1.0, 0.5, -0.75]][i - 1]
        s = env.vec(f's{i}', T, pos=True) if sym else [1.0, 1.5, 2.0]
        if sym: env.assume(sum((z[t] - z[0]) * (z[t] - z[0]) for t in range(T)) > 0)
        estimated(env, m, p, [z[t] * s[t] for t in range(T)], [x * x for x in s])
        ps += p; zs.append(z)
    return c, ps, zs


@ob('C10', quick=[{}], bounds='three arbitrary non-constant standardised residuals per series, positive variances, arbitrary univariate estimates', max_paths=3000)
def start(env):
    def handler(p): raise Stop
    calls = stub(env, handler)
    c, ps, zs = ccc(env)
    try: c.fit()
    except Stop: pass
    env.check(len(calls) == 1, 'one optimisation')
    env.eq(env.asarray([calls[0].x0[i] for i in range(len(calls[0].x0))]), env.asarray(ps + [G.corr(env, *zs)]), 'starting values')


@ob('C10', quick=[{}], bounds='parameter vector arbitrary', max_paths=3000)
def feasible_set(env):
    def handler(p): raise Stop
    calls = stub(env, handler)
    c, ps, zs = ccc(env, sym=False)
    try: c.fit()
    except Stop: pass
    x = env.vec('x', 9)
    lim = []
    for k in (0, 4): lim += [x[k + 1] >= 1e-6, x[k + 2] >= 0, x[k + 2] <= 1, x[k + 3] >= 0, x[k + 3] <= 1, x[k + 2] + x[k + 3] <= 1]
    lim += [x[8] >= -0.99, x[8] <= 0.99]
    feasible_equiv(env, calls[0], env.asarray(x), lim, lim, 'parameter limits')


@ob('C10', quick=[dict(ext=x) for x in (False, True)], bounds='two arbitrary residuals per series around arbitrary means; EWMA variances inside the global limits, no variance bound active', max_paths=3000, **EXT)
def objective(env, ext, T=2):
    p, rho, es, vs = region(env, T, '')
    def handler(p): raise Stop
    calls = stub(env, handler)
    A = env.mod('frds.algorithms', ext=ext)
    r = [env.asarray([p[i][0] + es[i][t] for t in range(T)]) for i in (0, 1)]
    c = A.GARCHModel_CCC(*r)
    for i, m in enumerate((c.model1, c.model2)): estimated(env, m, [0.1, 0.2, 0.1, 0.5], [1.0, -0.5 - i], [1.0, 2.0])
    try: c.fit()
    except Stop: pass
    env.eq(calls[0].objective(env.asarray(p[0] + p[1] + [rho])), -biv(env, es[0], vs[0], es[1], vs[1], rho), 'objective')


@ob('C10', quick=[{}], bounds='success and failure in any order over three attempts; arbitrary solutions and objective values', max_paths=3000)
def report(env):
    xs = [env.vec(f'x{k}', 9) for k in range(3)]; fs = [env.real(f'f{k}') for k in range(3)]
    oks = [env.choose(2, f'attempt {k}') for k in range(3)]
    n = []
    def handler(p):
        k = len(n); n.append(1)
        return env.asarray(xs[k]), fs[k], bool(oks[k])
    calls = stub(env, handler)
    c, ps, zs = ccc(env, sym=False)
    done = None
    for k in range(3):
        q = c.fit()
        if done is None and oks[k]: done = len(n) - 1
        for w, s in ((q, 'returned'), (c.parameters, 'stored')):
            if done is None:
                if w is not None: env.check(all(is_nan(getattr(w, f)) for f in NAMES + ['loglikelihood']), f'nothing is reported after a failure ({s})')
            else:
                env.check(w is not None, f'parameters are {s}')
                env.eq(env.asarray([getattr(w, f) for f in NAMES] + [w.loglikelihood]), env.asarray(list(xs[done]) + [-fs[done]]), f'{s} parameters')
        env.check(bool(c.estimation_success) == (done is not None), 'success flag')
