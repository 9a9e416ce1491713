"""C15 LRMES estimate"""
from symx.harness import ob, UTILS, MEAS
from props.rngspec import patch_rng, index_choice
from props import longspec as W
from props.c03 import EM, spec_sim, lrmes_args

X = (False, True)
R = ('mu', 'omega', 'alpha', 'gamma', 'beta')


def model(env, ext, T, long=False):
    """an LRMES object whose GJR-DCC model has arbitrary fitted state (long: arbitrary at four days only)"""
    M = env.mod('frds.measures', ext=ext); L = env.mod('frds.measures._long_run_mes', ext=ext); A = env.mod('frds.algorithms', ext=ext)
    m = M.LongRunMarginalExpectedShortfall(env.asarray([0.01 * (1 + t % 7) - 0.02 * (t % 3) for t in range(T)]), env.asarray([0.01 * (1 + t % 5) - 0.015 * (t % 4) for t in range(T)]))
    st = {}
    for g, k in ((m.firm_model, 'i'), (m.market_model, 'm')):
        z = W.mixed(env, 'z' + k, T, ord(k), -2.5, 2.5) if long else env.vec('z' + k, T); s = W.mixed(env, 's' + k, T, ord(k) + 9, 0.5, 3.0, pos=True) if long else env.vec('s' + k, T, pos=True)
        st[k] = z, s
        g.resids = env.asarray([z[t] * s[t] for t in range(T)]); g.sigma2 = env.asarray([x * x for x in s])
        g.parameters = A.GJRGARCHModel.Parameters(**{n: env.real(f'{n}_{k}', pos=(n == 'omega'), nonneg=n in ('alpha', 'gamma', 'beta')) for n in R})
        g.estimation_success = True
    rho = W.mixed(env, 'rho', T, 3, -0.9, 0.9) if long else env.vec('rho', T, lo=-0.9, hi=0.9)
    a, b = env.real('a', nonneg=True), env.real('b', nonneg=True)
    env.assume(1 - a - b > 0)
    for k in 'im' if not long else '':
        z = st[k][0]
        env.assume(sum((z[t] - z[0]) * (z[t] - z[0]) for t in range(T)) > 0)
    d = m.dcc_model
    d.parameters.a, d.parameters.b = a, b
    fits = []
    def fit():
        fits.append(1); d.estimation_success = True
        return d.parameters
    d.fit = fit
    def cc(x, y):
        env.eq(env.asarray([x, y]), env.asarray([a, b]), 'correlations at the fitted parameters')
        return env.asarray(rho)
    d.conditional_correlations = cc
    return m, L, st, rho, a, b, fits


def corr(env, x, y):
    from props.garchspec import corr as c
    return c(env, x, y)


@ob('C15', quick=[dict(ext=x, S=S, H=H, T=3) for x in X for S, H in ((1, 2), (2, 1))], thorough=[dict(ext=x, S=S, H=H, T=3) for x in X for S, H in ((1, 2), (2, 1), (2, 2), (3, 1))],
    bounds='S*h <= 2 (4 thorough) draws from a history of three days: every choice of the drawn days and of the systemic events; fitted series, parameters, simulated returns, C arbitrary', max_paths=6000, guard_random=True, **EM)
def estimate(env, ext, S, H, T): run_estimate(env, ext, S, H, T)


@ob('C15', quick=[dict(ext=x, S=40, H=22, T=60, every=e) for x in X for e in (3, 0)], thorough=[dict(ext=x, S=200, H=22, T=250, every=e) for x in X for e in (3, 0)],
    bounds='S = 40 simulations of 22 days (200 thorough) from a history of 60 (250) days that is arbitrary at four days and listed numbers elsewhere; listed draws; every third simulation, or none, has the event; simulated returns, parameters and C arbitrary', time_s=250, guard_random=True, **EM)
def many(env, ext, S, H, T, every): run_estimate(env, ext, S, H, T, every)


def run_estimate(env, ext, S, H, T, every=None):
    log = []; long = every is not None
    seeds = patch_rng(env, {'choice': index_choice(env, log, (lambda i: i * 7 + i // 5) if long else None)})
    m, L, st, rho, a, b, fits = model(env, ext, T, long)
    C = env.real('C', lo=-0.9, hi=0.5)
    ev = [int(every and s % every == 1) for s in range(S)] if long else [env.choose(2, f'event {s}') for s in range(S)]
    ret = [env.real(f'ret{s}') for s in range(S)]
    calls = []
    names = ('innovation', 'C', 'firm_var', 'mkt_var', 'firm_resid', 'mkt_resid', 'a', 'b', 'rho', 'Q_bar')
    par = tuple(n + '_' + k for k in 'im' for n in R)
    def sim(*args, **kw):
        d = dict(zip(names + par, args)); d.update(kw)
        s = len(calls); calls.append(d)
        if s >= S: env.fail('more simulations than requested'); env.unsupported('simulations')
        return (ret[s], True) if ev[s] else (0.0, False)
    m.simulation = sim
    if ext: L.ext = type('X', (), {'simulation': staticmethod(sim)})
    got = m.estimate(h=H, S=S, C=C, random_seed=7)
    if not calls: env.unsupported('the simulations do not go through simulation()')
    env.check(len(calls) == S, 'number of simulations')
    env.check(seeds == [7], 'one generator with the given seed')
    env.check(len(fits) >= 1, 'the model is fitted')
    zi, zm = st['i'][0], st['m'][0]; si, sm = st['i'][1], st['m'][1]
    Q = corr(env, zi, zm)
    idx = [i for v in log for i in v]
    for s, d in enumerate(calls):
        for h in range(H):
            t = idx[s * H + h]
            xi = (zi[t] - rho[t] * zm[t]) / env.sqrt(1 - rho[t] * rho[t])
            env.eq(d['innovation'][h, 0], xi, 'firm shock drawn'); env.eq(d['innovation'][h, 1], zm[t], 'market shock drawn')
        env.check(len(d['innovation']) == H, 'horizon')
        want = dict(C=C, firm_var=si[-1] * si[-1], mkt_var=sm[-1] * sm[-1], firm_resid=zi[-1] * si[-1], mkt_resid=zm[-1] * sm[-1], a=a, b=b, rho=rho[-1])
        for k, v in want.items(): env.eq(d[k], v, f'argument {k}')
        env.eq(d['Q_bar'], env.asarray([[1.0, Q], [Q, 1.0]]), 'argument Q_bar')
        for k, g in (('i', m.firm_model), ('m', m.market_model)):
            for n in R:
                if n + '_' + k in d: env.eq(d[n + '_' + k], getattr(g.parameters, n), f'argument {n}_{k}')
                elif ext: env.fail(f'argument {n}_{k} missing')
    n = sum(ev)
    env.eq(got, -sum(ret[s] for s in range(S) if ev[s]) / n if n else 0.0, 'LRMES')


@ob('C15', quick=[dict(ext=x) for x in X], bounds='S = 2, h = 1, the two drawn days fixed; fitted series and parameters arbitrary; through the real simulation', max_paths=6000, **EM)
def through(env, ext):
    T = 2; S = 2
    order = [0, 1]
    def choice(self, n, size=None, replace=True, p=None):
        import numpy as np
        k = size if isinstance(size, int) else int(np.prod(size))
        v = [order.pop(0) for _ in range(k)]
        return np.array(v, dtype=int).reshape(size)
    patch_rng(env, {'choice': choice})
    m, L, st, rho, a, b, fits = model(env, ext, T)
    C = env.real('C', lo=-0.9, hi=0.5)
    zi, zm = st['i'][0], st['m'][0]; si, sm = st['i'][1], st['m'][1]
    Q = corr(env, zi, zm)
    tot, n = 0, 0
    for t in (0, 1):
        xi = (zi[t] - rho[t] * zm[t]) / env.sqrt(1 - rho[t] * rho[t])
        d = dict(innovation=env.asarray([[xi, zm[t]]]), C=C, firm_var=si[-1] * si[-1], mkt_var=sm[-1] * sm[-1], firm_resid=zi[-1] * si[-1], mkt_resid=zm[-1] * sm[-1], a=a, b=b, rho=rho[-1], Q_bar=env.asarray([[1.0, Q], [Q, 1.0]]))
        r, e = spec_sim(env, 1, d, m.firm_model.parameters.__dict__, m.market_model.parameters.__dict__)
        tot = tot + r; n += e
    got = m.estimate(h=1, S=S, C=C, random_seed=3)
    env.eq(got, -tot / n if n else 0.0, 'LRMES')


@ob('C15', quick=[{}], bounds='four arbitrary raw returns above -1 per series')
def log_returns(env):
    r = [env.vec(k, 4, lo=-0.99) for k in ('firm', 'market')]
    m = env.mod('frds.measures').LongRunMarginalExpectedShortfall(env.asarray(r[0]), env.asarray(r[1]))
    for g, x, k in ((m.dcc_model.model1, r[0], 'firm'), (m.dcc_model.model2, r[1], 'market'), (m.firm_model, r[0], 'firm'), (m.market_model, r[1], 'market')):
        env.eq(g.returns, env.asarray([100 * env.log(1 + v) for v in x]), f'{k} model fitted to percentage log returns')
    env.check(m.dcc_model.model1 is m.firm_model and m.dcc_model.model2 is m.market_model, 'the DCC model is that of the two series')


@ob('C15', quick=[{}], bounds='any seed; the fit fails')
def failed_fit(env):
    patch_rng(env, {})
    m, *_ = model(env, False, 3)
    def fit():
        m.dcc_model.estimation_success = False
        return m.dcc_model.parameters
    m.dcc_model.fit = fit
    env.raises(Exception, lambda: m.estimate(h=1, S=1), 'an unsuccessful fit')
