"""C35 callers' data are never modified

Most cases are the call sequences of the other properties' obligations, run with every array, list and series handed to
the package watched; what those obligations assert about results is left aside here."""
import copy, importlib
import numpy as np
from symx.harness import ob, flat, shape_of, UTILS, MEAS, IFOREST, REGISTRY, CheckFailed
from symx.core import Unsupported, UninitError, PathAbort
from props import garchspec as G
from props import iforestspec as S
from props.optspec import stub


def snap(x):
    if isinstance(x, np.ndarray): return x.copy()
    if isinstance(x, list): return [snap(v) for v in x]
    if isinstance(x, tuple): return tuple(snap(v) for v in x)
    if isinstance(x, dict): return {k: snap(v) for k, v in x.items()}
    if hasattr(x, 'to_numpy') and hasattr(x, 'index'): return x.copy(deep=True)
    return x


class Watch:
    """passes everything on to the environment of the check, remembers the containers created for the package and drops assertions"""
    def __init__(self, env): self._env = env; self._kept = []
    def __getattr__(self, n): return getattr(self._env, n)

    def keep(self, x, what=None):
        self._kept.append((x, snap(x), what or f"{type(x).__name__} {len(self._kept)}"))
        return x

    def arr(self, name, shape, kind='array', **k): return self.keep(self._env.arr(name, shape, kind, **k), f"{kind} {name}")
    def vec(self, name, n, **k): return self.keep(self._env.vec(name, n, **k), f"list {name}")
    def asarray(self, v, shape=None): return self.keep(self._env.asarray(v, shape))
    def series(self, a): return self.keep(self._env.series(a))
    def eq(self, *a, **k): pass
    def check(self, *a, **k): pass
    def same_flag(self, *a, **k): pass
    def ok(self): pass
    def fail(self, msg): pass
    def raises(self, exc, f, msg):
        try: f()
        except (Unsupported, PathAbort, UninitError): raise
        except Exception: pass

    def unchanged(self):
        env = self._env
        env.check(len(self._kept) > 0, 'some data was handed over')
        for x, old, what in self._kept:
            if isinstance(x, (list, tuple)) or not shape_of(x): env.check(shape_of(x) == shape_of(old), f"{what}: size changed")
            env.eq(x, old, f"{what} changed")


# property -> obligation -> cases (indices into its quick list)
CASES = {
    'c01': {'series': (2, 3)}, 'c02': {'series': (2, 4)}, 'c03': {'simulation': (1,)},
    'c04': {'backcast': (2,), 'ewma': (4, 6), 'bounds': (2, 3)},
    'c06': {'loglikelihood': (1,), 'objective': (8, 9, 12, 13)}, 'c07': {'objective': (0, 1, 2, 3, 4), 'grid_start': (0,)},
    'c08': {'success': tuple(range(8)), 'failure': (0, 2), 'retry': (0, 1)},
    'c09': {'loglikelihood': (1,), 'relations': (1,), 'objective': (2, 4)}, 'c10': {'*': (0,)}, 'c11': {'correlations': (0, 1, 2, 3)},
    'c13': {'objective': (0, 1, 2, 3), 'feasible_set': (0,), 'report': (0, 1, 2, 3)},
    'c14': {'simulation': (0,)}, 'c15': {'estimate': (0, 2), 'log_returns': (0,), 'failed_fit': (0,)}, 'c16': {'srisk': (0, 1, 2, 3, 5)},
    'c17': {'formula': (1, 6), 'default_q': (0,)}, 'c18': {'fitted': (0,)}, 'c19': {'share': (0, 1)},
    'c21': {'premium': (0, 1)}, 'c22': {'slope': (2, 3, 4, 5)}, 'c23': {'likelihood': (1, 3)}, 'c24': {'best': (0, 2)},
    'c25': {'formula': (1,)}, 'c26': {'formula': (0, 1, 2)}, 'c27': {'quoted': (4, 5, 6, 7), 'traded': None, 'zero_volume': None}, 'c28': {'formula': None, 'zero_volume': (0, 1)},
    'c29': {'slopes': (0, 1, 2), 'slope_difference': (0, 1), 'depth_difference': (0, 1)},
    'c30': {'loan': (1, 3), 'merton_objective': (1,)}, 'c31': {'cohorts': (0,), 'one_cohort': (0,)},
}


def watched(o, prop):
    def fn(env, **p):
        w = Watch(env)
        try: o.fn(w, **p)
        except (Unsupported, PathAbort, UninitError): raise
        except Exception: pass      # results are not this property's subject
        w.unchanged()
    fn.__name__ = f"{prop}_{o.name}"
    fn.__doc__ = f"the calls of {prop.upper()} {o.name}"
    return fn


for prop, obs in CASES.items():
    importlib.import_module('props.' + prop)
    for o in list(REGISTRY[prop.upper()]):
        if o.name not in obs and '*' not in obs: continue
        ix = obs.get(o.name, obs.get('*'))
        qs = list(o.quick)
        qs = [qs[i] for i in ix if i < len(qs)] if ix is not None else qs[:12]
        opts = {k: v for k, v in o.opts.items() if k not in ('quick', 'thorough', 'bounds', 'raise_any')}
        opts['history'] = False
        ob('C35', quick=qs, thorough=None, bounds=f"as {prop.upper()} {o.name}", **opts)(watched(o, prop))


X = (False, True)


def model_state(m):
    """what an estimated model reports, as plain containers"""
    p = m.parameters
    return {k: v for k, v in vars(p).items()}, m.resids, m.sigma2, bool(m.estimation_success)


@ob('C35', quick=[dict(kind=k, ext=x) for k in ('ccc', 'dcc', 'gjrdcc') for x in X], ext=True, exts=[UTILS], max_paths=3000,
    bounds='two estimated models with arbitrary parameters and log-likelihoods (3 days), residuals and variances numbers; fitted twice')
def models(env, kind, ext):
    """estimated univariate models passed to a multivariate model, and the returns of both, are the same after it is fitted"""
    gjr = kind == 'gjrdcc'
    rho = env.real('rho', lo=-0.9, hi=0.9)
    stub(env, lambda prob: (env.asarray([rho] if len(prob.x0) == 1 else [0.0625, 0.5]), env.real('fun'), True))
    A = env.mod('frds.algorithms', ext=ext)
    ms = []; snaps = []
    for i in range(2):
        r = env.asarray([0.5, -1.0, 0.25])
        m = (A.GJRGARCHModel if gjr else A.GARCHModel)(r)
        n = ['mu', 'omega', 'alpha'] + (['gamma'] if gjr else []) + ['beta', 'loglikelihood']
        m.parameters = type(m).Parameters(**{k: env.real(f'{k}{i}') for k in n})
        m.resids = env.asarray([0.5, -1.5, 0.5 + i]); m.sigma2 = env.asarray([1.0, 2.25, 4.0 - i]); m.estimation_success = True
        ms.append(m); snaps.append((snap(model_state(m)), r, snap(r)))
    cls = dict(ccc='GARCHModel_CCC', dcc='GARCHModel_DCC', gjrdcc='GJRGARCHModel_DCC')[kind]
    try: d = getattr(A, cls)(ms[0].returns, ms[1].returns) if kind == 'ccc' else getattr(A, cls)(*ms)
    except TypeError: env.unsupported('constructor')
    if kind == 'ccc': d.model1, d.model2 = ms
    for k in range(2):
        try: d.fit()
        except (Unsupported, PathAbort, UninitError): raise
        except Exception: pass
        for m, (s, r, r0) in zip(ms, snaps):
            env.eq(r, r0, 'returns of a model')
            if kind == 'ccc': continue      # a CCC model estimates its own univariate models
            env.eq(list(s[0].values()), list(model_state(m)[0].values()), 'parameters of an estimated model')
            env.eq(m.resids, s[1], 'residuals of an estimated model'); env.eq(m.sigma2, s[2], 'variances of an estimated model')
            env.check(m.estimation_success is True, 'status of an estimated model')


@ob('C35', quick=[dict(table=t, ex=e) for t in ('num2', 'mix', 'miss') for e in X], ext=True, exts=[IFOREST], max_paths=3000, bounds='data frames with numeric and string columns and missing values, with and without excluded columns; 1 tree, every random draw')
def data_frame(env, table, ex):
    M = S.setup(env)
    n = 3
    cols = {'num2': ['n', 'n'], 'mix': ['n', ('b', 'a', 'bb')], 'miss': ['m1', ('b', '', 'bb')]}[table]
    cols = S.table(env, n, cols)
    d = S.frame(env, cols, [5, 6, 7]); names = ['c1'] if ex else None
    old = [(c, k, snap(v)) for c, k, v in cols]
    M.anomaly_scores(d, forest_size=1, tree_size=2, random_seed=3, exclude_cols=names)
    env.check(list(d.columns) == [c for c, _, _ in old] and list(d.index) == [5, 6, 7], 'columns and rows of the data frame')
    env.check(names == (['c1'] if ex else None), 'list of excluded columns')
    for j, (c, k, v) in enumerate(old):
        now = d.cols[j][2] if env.symbolic else list(d[c])
        env.eq([now[i] for i in range(n)], list(v), f'column {c}')


@ob('C35', quick=[dict(typ=t) for t in ('list', 'array')], bounds='any trial point and parameters; results of the computation arbitrary')
def merton_parameters(env, typ):
    """the error function of the single-cohort model leaves the parameters it was given alone"""
    PKG = 'frds.measures.modified_merton.'
    calls = []
    def comp(fs, param, *a, **k):
        calls.append([param[i] for i in range(10)])
        return [0.5] * 16
    env.patch(PKG + 'mod_single_cohort_solution', 'mod_single_cohort_computation', comp)
    M = env.mod(PKG + 'mod_single_cohort_solution')
    p = env.arr('p', 10, kind=typ); q = snap(p)
    b = env.vec('b', 2)
    r = M.mod_single_cohort_solution(b, p, 2, 3, env.real('E'), env.real('sigE'))
    env.eq(p, q, 'parameters')
    env.check(len(calls) == 1, 'one computation')
    env.eq(calls[0], [p[0], p[1], b[1]] + [p[i] for i in range(3, 10)], 'parameters used')
