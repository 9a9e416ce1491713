"""C34 compiled extensions read only the memory they are given"""
import math
import numpy as np
from symx.harness import ob, UTILS, MEAS, IFOREST
from props import garchspec as G
from props import iforestspec as S
from props.c03 import pair, lrmes_args, spec_sim

EU = dict(ext=True, exts=[UTILS], max_paths=3000)
ONE = ('c', 'step', 'rev', 'slice', 'column', 'row', 'revstep')
TWO = ('c', 'f', 'rev', 'revcol', 'cols', 'rows', 'plane')


def lay1(env, v, layout):
    """an array with elements v whose memory is laid out as stated, inside a larger array of other numbers"""
    n = len(v); J = [1000.0 + 7 * k for k in range(4 * n + 8)]
    if layout == 'c': return env.asarray(list(v))
    if layout == 'step': b = env.asarray([x for i in range(n) for x in (v[i], J[i])]); return b[::2]
    if layout == 'rev': return env.asarray(list(v)[::-1])[::-1]
    if layout == 'slice': return env.asarray(J[:3] + list(v) + J[3:5])[3:3 + n]
    if layout == 'column': return env.asarray([[J[i], v[i], J[n + i]] for i in range(n)])[:, 1]
    if layout == 'row': return env.asarray([J[:n], list(v), J[n:2 * n]])[1]
    if layout == 'revstep': b = env.asarray([x for i in range(n) for x in (J[i], v[n - 1 - i], J[n + i])]); return b[1::3][::-1]
    raise ValueError(layout)


def lay2(env, v, layout):
    """a matrix with rows v, likewise"""
    n, m = len(v), len(v[0]); J = [2000.0 + 7 * k for k in range(8 * n * m + 8)]
    if layout == 'c': return env.asarray([list(r) for r in v])
    if layout == 'f': return env.asarray([[v[i][j] for i in range(n)] for j in range(m)]).T
    if layout == 'rev': return env.asarray([list(r) for r in v][::-1])[::-1]
    if layout == 'revcol': return env.asarray([list(r)[::-1] for r in v])[:, ::-1]
    if layout == 'cols': return env.asarray([[J[i]] + [x for j in range(m) for x in (v[i][j], J[n + i * m + j])] for i in range(n)])[:, 1::2]
    if layout == 'rows': return env.asarray([r for i in range(n) for r in (list(v[i]), J[i * m:(i + 1) * m])])[::2]
    if layout == 'plane': return env.asarray([[[v[i][j], J[i * m + j]] for j in range(m)] for i in range(n)])[:, :, 0]
    raise ValueError(layout)


def fresh(env, f, ins, want, what):
    """f() returns an array of its own with the values wanted, and keeps doing so"""
    r = f()
    env.check(isinstance(r, np.ndarray) and tuple(r.shape) == (len(want),), f"{what}: one value per observation")
    env.check(not any(np.shares_memory(r, x) for x in ins), f"{what}: the result is not a view of an argument")
    env.eq(r, env.asarray(want), what)
    r[0] = 12345.0
    q = f()
    env.check(not np.shares_memory(r, q), f"{what}: each call returns its own array")
    env.eq(q, env.asarray(want), what + ' (called again)')


L = [dict(T=1, re='c', vb='c'), dict(T=1, re='step', vb='f')] + [dict(T=2, re=x, vb='c') for x in ONE[1:]] + [dict(T=2, re='c', vb=x) for x in TWO[1:]] + [dict(T=3, re='revstep', vb='f'), dict(T=3, re='column', vb='cols')]
LB = 'T <= 3: every value; residuals and bounds as contiguous, strided, reversed, sliced, transposed views'


@ob('C34', quick=L, thorough=L + [dict(T=3, re=x, vb=y) for x, y in zip(ONE, TWO)], bounds=LB, **EU)
def garch(env, T, re, vb):
    M = env.mod('frds.algorithms', ext=True).GARCHModel
    p = G.params(env, ['omega', 'alpha', 'beta']); e = env.vec('e', T); bc = env.real('bc'); b = [[env.real(f'lo{t}', pos=True), env.real(f'up{t}', pos=True)] for t in range(T)]
    E, B = lay1(env, e, re), lay2(env, b, vb)
    fresh(env, lambda: M.compute_variance(p, E, bc, B), (E, B), G.garch(env, p, e, bc, b), 'variances')


@ob('C34', quick=L, thorough=L + [dict(T=3, re=x, vb=y) for x, y in zip(ONE, TWO)], bounds=LB, **EU)
def gjr(env, T, re, vb):
    M = env.mod('frds.algorithms', ext=True).GJRGARCHModel
    p = G.params(env, ['omega', 'alpha', 'gamma', 'beta']); e = env.vec('e', T); bc = env.real('bc'); b = [[env.real(f'lo{t}', pos=True), env.real(f'up{t}', pos=True)] for t in range(T)]
    E, B = lay1(env, e, re), lay2(env, b, vb)
    fresh(env, lambda: M.compute_variance(p, E, bc, B), (E, B), G.gjr(env, p, e, bc, b), 'variances')


@ob('C34', quick=[dict(T=T, re=x) for T in (1, 2, 5) for x in ONE], bounds='T in 1, 2, 5; every value; all 1-dimensional layouts', **EU)
def ewma(env, T, re):
    M = env.mod('frds.algorithms', ext=True).GARCHModel
    e = env.vec('e', T); v0 = env.real('v0'); lam = env.real('lam')
    E = lay1(env, e, re)
    fresh(env, lambda: M.ewma(E, v0, lam), (E,), G.ewma(e, v0, lam), 'ewma')


@ob('C34', quick=[dict(vb=x) for x in ONE], bounds='one variance; every value; all 1-dimensional layouts', **EU)
def bounds_check(env, vb):
    M = env.mod('frds.algorithms', ext=True).GARCHModel
    v = env.real('v'); b = [env.real('lo', pos=True), env.real('up', pos=True)]
    env.eq(M.bounds_check(v, lay1(env, b, vb)), G.bound(env, v, *b), 'bounds_check')


@ob('C34', quick=[dict(T=2, lay=x) for x in ONE] + [dict(T=3, lay='column'), dict(T=3, lay='mixed')], bounds='T = 2, 3; every value as in C11; all 1-dimensional layouts', **EU)
def dcc(env, T, lay):
    A = env.mod('frds.algorithms', ext=True)
    z1, z2, s1, s2, a, b = pair(env, T)
    want, _ = G.dcc(env, z1, z2, a, b)
    ls = [lay] * 4 if lay != 'mixed' else ['rev', 'step', 'column', 'slice']
    m = []
    for z, s, l in ((z1, s1, ls[:2]), (z2, s2, ls[2:])):
        x = A.GARCHModel(env.asarray([0.5] * T)); x.estimation_success = True; x.fit = lambda x=x: x.parameters
        x.resids = lay1(env, [z[t] * s[t] for t in range(T)], l[0]); x.sigma2 = lay1(env, [q * q for q in s], l[1])
        m.append(x)
    d = A.GARCHModel_DCC(*m)
    fresh(env, lambda: d.conditional_correlations(a, b), (m[0].resids, m[0].sigma2, m[1].resids, m[1].sigma2), want, 'conditional correlations')


@ob('C34', quick=[dict(H=1, z='c', q='f'), dict(H=1, z='cols', q='revcol'), dict(H=2, z='f', q='c'), dict(H=2, z='rev', q='plane'), dict(H=2, z='plane', q='rows')], bounds='h = 1, 2; values as in C03; innovations and Qbar in all 2-dimensional layouts', ext=True, exts=[UTILS, MEAS], max_paths=2000)
def simulation(env, H, z, q):
    d, pf, pm = lrmes_args(env, H, 'all')
    want = spec_sim(env, H, d, pf, pm)
    L = env.mod('frds.measures._long_run_mes', ext=True)
    Z = lay2(env, [[d['innovation'][i, j] for j in range(2)] for i in range(H)], z); Q = lay2(env, [[d['Q_bar'][i, j] for j in range(2)] for i in range(2)], q)
    x = [Z] + [d[k] for k in ('C', 'firm_var', 'mkt_var', 'firm_resid', 'mkt_resid', 'a', 'b', 'rho')] + [Q]
    for p in (pf, pm): x += [p[k] for k in ('mu', 'omega', 'alpha', 'gamma', 'beta')]
    r = L.ext.simulation(*x)
    env.eq(r[0], want[0], 'firm return')
    env.same_flag(r[1], want[1], 'systemic event flag')


BAD = [dict(cls=c, what=w) for c in ('GARCHModel', 'GJRGARCHModel') for w in ('no parameters', 'few parameters', 'empty', 'short bounds', 'one bound', 'flat bounds', 'matrix')]


@ob('C34', quick=BAD, bounds='arguments of the wrong size: too few parameters, no observations, too few or too narrow bounds, matrix of residuals', **EU)
def wrong_sizes(env, cls, what):
    """arguments of the wrong size are refused, or whatever is returned was computed without reading outside them"""
    M = getattr(env.mod('frds.algorithms', ext=True), cls)
    k = 3 if cls == 'GARCHModel' else 4
    T = 0 if what == 'empty' else 2
    p = [0.1, 0.2, 0.3, 0.4][:k]
    if what == 'no parameters': p = []
    if what == 'few parameters': p = p[:-1]
    E = env.asarray([0.5] * T); B = env.asarray([[0.1, 9.0]] * 2)
    if what == 'short bounds': B = B[:1]
    if what == 'one bound': B = env.asarray([[0.1], [0.1]])
    if what == 'flat bounds': B = env.asarray([0.1, 9.0])
    if what == 'matrix': E = env.asarray([[0.5, 0.5]] * 2)
    try: r = M.compute_variance(p, E, 0.25, B)
    except (ValueError, TypeError, IndexError): env.ok(); return
    env.ok()


@ob('C34', quick=[dict(what=w) for w in ('ewma empty', 'ewma matrix', 'bound', 'bounds matrix', 'dcc one', 'dcc shorter', 'dcc longer', 'dcc int', 'dcc float32')], zero_div='nan', bounds='as stated', **EU)
def wrong_arrays(env, what):
    A = env.mod('frds.algorithms', ext=True)
    try:
        if what == 'ewma empty': A.GARCHModel.ewma(env.asarray([]), 0.5, 0.9)
        elif what == 'ewma matrix': A.GARCHModel.ewma(env.asarray([[0.5]]), 0.5, 0.9)
        elif what == 'bound': A.GARCHModel.bounds_check(0.5, env.asarray([0.25]))
        elif what == 'bounds matrix': A.GARCHModel.bounds_check(0.5, env.asarray([[0.25, 0.75]]))
        else:
            m = []
            for k in range(2):
                x = A.GARCHModel(env.asarray([0.5, 0.25])); x.estimation_success = True; x.fit = lambda x=x: x.parameters
                n = 1 if what == 'dcc one' else 3
                x.resids = env.asarray([0.5, -0.25, 1.0][:n]); x.sigma2 = env.asarray([1.0, 2.0, 0.5][:n])
                m.append(x)
            if what == 'dcc shorter': m[1].sigma2 = m[1].sigma2[:2]
            if what == 'dcc longer': m[0].resids = m[0].resids[:2]
            if what == 'dcc int': m[0].resids = np.array([1, 2, -1])
            if what == 'dcc float32': m[1].resids = np.array([1, 2, -1], dtype=np.float32)
            A.GARCHModel_DCC(*m).conditional_correlations(0.125, 0.5)
    except (ValueError, TypeError, IndexError): pass
    env.ok()


@ob('C34', quick=[dict(what=w) for w in ('no rows', 'no columns', 'one row', 'tree 1', 'tree 0', 'tree -1', 'forest 0', 'forest -1', 'wide', 'empty strings', 'seed -3')], zero_div='nan', ext=True, exts=[IFOREST], max_paths=3000,
    bounds='isolation forest of 2 trees on tables without rows or columns, one row, tree and forest sizes from -1, strings that fill their cells, empty strings; every random draw')
def iforest(env, what):
    M = S.setup(env)
    n = {'no rows': 0, 'one row': 1}.get(what, 2)
    cols = [('x', 'n', env.vec('x', n)), ('s', 's', {'wide': ['abc', 'abd'], 'empty strings': ['', '']}.get(what, ['b', 'a'])[:n])]
    kw = dict(forest_size=2, tree_size=2, random_seed=7)
    if what.startswith(('tree', 'forest')): kw[what.split()[0] + '_size'] = int(what.split()[1])
    if what.startswith('seed'): kw['random_seed'] = int(what.split()[1])
    if what == 'wide': cols = cols[1:]
    if what == 'no columns': kw['exclude_cols'] = ['x', 's']
    try: got, index, _ = S.parts(env, M.anomaly_scores(S.frame(env, cols, list(range(n))), **kw))
    except (ValueError, TypeError, OverflowError): env.ok(); return
    env.check(len(got) == n and index == list(range(n)), 'one score per row')
