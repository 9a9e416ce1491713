"""C03 compiled and pure-Python back ends agree"""
import math
from symx.harness import ob, UTILS, MEAS
from props import garchspec as G

EU = dict(ext=True, exts=[UTILS])
EM = dict(ext=True, exts=[UTILS, MEAS])


def both(env, name):
    return env.mod(name, ext=False), env.mod(name, ext=True)


def bounds(env, T):
    lo = env.vec('lo', T, pos=True); w = env.vec('w', T, nonneg=True)
    return env.asarray([[lo[t], lo[t] + w[t]] for t in range(T)])

@ob('C03', quick=[dict(T=T) for T in (1, 2, 4)], thorough=[dict(T=T) for T in (1, 2, 4, 30)], bounds='T <= 4 (30 thorough), arbitrary residuals, initial value, decay', **EU)
def ewma(env, T):
    P, C = both(env, 'frds.algorithms')
    e = env.arr('e', T); v0 = env.real('v0'); lam = env.real('lam') if T <= 4 else 0.8
    env.eq(C.GARCHModel.ewma(e, v0, lam), P.GARCHModel.ewma(e, v0, lam), 'ewma')
    env.eq(C.GARCHModel.ewma(e, v0), P.GARCHModel.ewma(e, v0), 'ewma with default decay')


@ob('C03', quick=[dict(inf=0), dict(inf=1)], bounds='any finite value or plus infinity, any positive bounds with lower <= upper', **EU)
def bounds_check(env, inf):
    P, C = both(env, 'frds.algorithms')
    v = math.inf if inf else env.real('v')
    lo = env.real('lo', pos=True); up = lo + env.real('w', nonneg=True)
    b = env.asarray([lo, up])
    env.eq(C.GARCHModel.bounds_check(v, b), P.GARCHModel.bounds_check(v, b), 'bounds_check')


@ob('C03', quick=[dict(T=1), dict(T=2), dict(T=3)], thorough=[dict(T=1), dict(T=2), dict(T=3), dict(T=4)], bounds='T <= 3 (4 thorough); all inputs arbitrary, bounds positive', max_paths=3000, **EU)
def garch(env, T):
    P, C = both(env, 'frds.algorithms')
    p = G.params(env, ['omega', 'alpha', 'beta']); e = env.arr('e', T); bc = env.real('bc'); vb = bounds(env, T)
    env.eq(C.GARCHModel.compute_variance(p, e, bc, vb), P.GARCHModel.compute_variance(p, e, bc, vb), 'garch variance')


@ob('C03', quick=[dict(T=1), dict(T=2), dict(T=3)], thorough=[dict(T=1), dict(T=2), dict(T=3), dict(T=4)], bounds='T <= 3 (4 thorough); all inputs arbitrary, bounds positive', max_paths=3000, **EU)
def gjr(env, T):
    P, C = both(env, 'frds.algorithms')
    p = G.params(env, ['omega', 'alpha', 'gamma', 'beta']); e = env.arr('e', T); bc = env.real('bc'); vb = bounds(env, T)
    env.eq(C.GJRGARCHModel.compute_variance(p, e, bc, vb), P.GJRGARCHModel.compute_variance(p, e, bc, vb), 'gjr variance')


def fitted(env, M, cls, e, v):
    """a model reported as estimated whose residuals and variances are e and v"""
    m = getattr(M, cls)(env.asarray([e[t] for t in range(len(e))]))
    m.estimation_success = True
    m.fit = lambda: m.parameters
    m.resids = env.asarray([e[t] for t in range(len(e))]); m.sigma2 = env.asarray([v[t] for t in range(len(v))])
    return m


def pair(env, T):
    """two fitted models: standardised residuals z arbitrary, standard deviations s > 0, residuals z*s, variances s*s; a, b >= 0 with a + b < 1"""
    z1 = env.vec('z1', T); z2 = env.vec('z2', T)
    s1 = env.vec('s1', T, pos=True); s2 = env.vec('s2', T, pos=True)
    a = env.real('a', nonneg=True); b = env.real('b', nonneg=True)
    env.assume(1 - a - b > 0)
    for z in (z1, z2): env.assume(sum((z[t] - z[0]) * (z[t] - z[0]) for t in range(T)) > 0)
    return z1, z2, s1, s2, a, b


def dcc_models(env, M, cls, z1, z2, s1, s2):
    g = 'GJRGARCHModel' if cls.startswith('GJR') else 'GARCHModel'
    T = len(z1)
    m1 = fitted(env, M, g, [z1[t] * s1[t] for t in range(T)], [s * s for s in s1])
    m2 = fitted(env, M, g, [z2[t] * s2[t] for t in range(T)], [s * s for s in s2])
    return getattr(M, cls)(m1, m2)


@ob('C03', quick=[dict(T=2), dict(T=3), dict(T=4)], thorough=[dict(T=2), dict(T=3), dict(T=4), dict(T=6)], bounds='T <= 4 (6 thorough); arbitrary non-constant standardised residuals and positive variances of two fitted models; a, b >= 0, a + b < 1', **EU)
def dcc(env, T):
    P, C = both(env, 'frds.algorithms')
    z1, z2, s1, s2, a, b = pair(env, T)
    G.dcc(env, z1, z2, a, b)
    r = [dcc_models(env, M, 'GARCHModel_DCC', z1, z2, s1, s2).conditional_correlations(a, b) for M in (P, C)]
    env.eq(r[1], r[0], 'conditional correlations')


def lrmes_args(env, H, part='all'):
    """arguments of one simulation; part 'all': everything arbitrary, 'var': DCC parameters, Qbar and rho are numbers, 'cor': GARCH parameters are numbers"""
    r = env.real
    num = lambda v: float(v)
    cor = part != 'var'; var = part != 'cor'
    d = dict(innovation=env.arr('z', (H, 2)), C=r('C', lo=-0.9, hi=0.5))
    sf, sm = r('sf', pos=True), r('sm', pos=True)
    zf, zm = r('zf'), r('zm')
    d.update(firm_var=sf * sf, mkt_var=sm * sm, firm_resid=sf * zf, mkt_resid=sm * zm)
    d.update(a=r('a', nonneg=True) if cor else num(0.0625), b=r('b', nonneg=True) if cor else num(0.875), rho=r('rho', lo=-1, hi=1) if cor else num(0.5))
    if cor: env.assume(1 - d['a'] - d['b'] > 0)
    q = r('qbar', lo=-1, hi=1) if cor else num(0.25)
    q11, q22 = (r('q11', pos=True), r('q22', pos=True)) if part == 'all' else (1.0, 1.0)
    d['Q_bar'] = env.asarray([[q11, q], [q, q22]])
    def par(k, c):
        if var: return dict(mu=r('mu_' + k), omega=r('om_' + k, pos=True), alpha=r('al_' + k, nonneg=True), gamma=r('ga_' + k, nonneg=True), beta=r('be_' + k, nonneg=True))
        return dict(zip(('mu', 'omega', 'alpha', 'gamma', 'beta'), (r('mu_' + k), *c)))
    return d, par('i', (0.5, 0.125, 0.0625, 0.75)), par('m', (0.25, 0.25, 0.03125, 0.5))


def spec_sim(env, H, d, pf, pm):
    """the documented path: (firm return, systemic event)"""
    z, a, b = d['innovation'], d['a'], d['b']
    w = 1 - a - b
    q11, q12, q22 = d['Q_bar'][0, 0], d['Q_bar'][0, 1], d['Q_bar'][1, 1]
    qi, qm, qim = 1.0, 1.0, d['rho']
    vi, vm, ei, em = d['firm_var'], d['mkt_var'], d['firm_resid'], d['mkt_resid']
    zi, zm = ei / env.sqrt(vi), em / env.sqrt(vm)
    ri = rm = 0
    for h in range(H):
        ti = [[pf['omega']], [pf['alpha'], ei, ei], [pf['beta'], vi]]
        if env.is_true(ei < 0): ti.append([pf['gamma'], ei, ei])
        tm = [[pm['omega']], [pm['alpha'], em, em], [pm['beta'], vm]]
        if env.is_true(em < 0): tm.append([pm['gamma'], em, em])
        D = env.define
        vi, vm = D(env.lemma_pos(ti)), D(env.lemma_pos(tm))
        qi = D(env.lemma_pos([[w, q11], [a, zi, zi], [b, qi]]))
        qm = D(env.lemma_pos([[w, q22], [a, zm, zm], [b, qm]]))
        qim = D(w * q12 + a * zi * zm + b * qim)
        rho = qim / env.sqrt(qi * qm)
        env.assume(1 - rho * rho > 0)
        zm = z[h, 1]
        zi = D(rho * zm + env.sqrt(1 - rho * rho) * z[h, 0])
        em = env.sqrt(vm) * zm
        ei = env.sqrt(vi) * zi
        ri = ri + pf['mu'] + ei; rm = rm + pm['mu'] + em
    if env.is_true(env.exp(rm / 100) - 1 < d['C']): return env.exp(ri / 100) - 1, True
    return 0.0, False


def run_sim(env, ext, H, d, pf, pm):
    """one simulation by the back end in use: the compiled function is called as LongRunMES.estimate calls it"""
    M = env.mod('frds.measures', ext=ext)
    L = env.mod('frds.measures._long_run_mes', ext=ext)
    A = env.mod('frds.algorithms', ext=ext)
    if ext:
        x = [d[k] for k in ('innovation', 'C', 'firm_var', 'mkt_var', 'firm_resid', 'mkt_resid', 'a', 'b', 'rho', 'Q_bar')]
        for p in (pf, pm): x += [p[k] for k in ('mu', 'omega', 'alpha', 'gamma', 'beta')]
        return L.ext.simulation(*x)
    m = M.LongRunMarginalExpectedShortfall(env.asarray([0.01, 0.02]), env.asarray([0.01, 0.02]))
    m.firm_model.parameters = A.GJRGARCHModel.Parameters(**pf)
    m.market_model.parameters = A.GJRGARCHModel.Parameters(**pm)
    return m.simulation(**d)


SIM = [dict(H=1, part='all'), dict(H=2, part='all')]
SIMB = 'h = 1, 2 (3 thorough), everything arbitrary: variances, omegas positive, alpha, gamma, beta, a, b >= 0, a + b < 1, |correlation| < 1 at every step; every sign pattern of the residuals'


@ob('C03', quick=SIM, thorough=SIM + [dict(H=3, part='all')], bounds=SIMB, max_paths=2000, **EM)
def simulation(env, H, part):
    d, pf, pm = lrmes_args(env, H, part)
    spec_sim(env, H, d, pf, pm)
    rp = run_sim(env, False, H, d, pf, pm)
    rc = run_sim(env, True, H, d, pf, pm)
    env.eq(rc[0], rp[0], 'firm return')
    env.same_flag(rc[1], rp[1], 'systemic event flag')
