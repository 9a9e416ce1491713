"""C39 the simulation study of the modified Merton model reports what its models say"""
import os, re, warnings
from symx import core
from symx.harness import ob
from props.longspec import number

PKG = 'frds.measures.modified_merton.'
K, H, T, r, y, d, N, G = 33, 5, 10, 0.01, 0.002, 0.005, 10, 0.5
NAMES = ('Lt', 'Bt', 'Et', 'LH', 'BH', 'EH', 'sigEt', 'mFt', 'default', 'mdef', 'face', 'FH', 'Gt', 'mu', 'F', 'sigLt')
RATE = r
ROWS = 3      # simulated outcomes in the matrices handed back


class Figures:
    """stand-in for matplotlib.pyplot: remembers what is drawn between figure() and savefig()"""
    def __init__(self, env): self.env = env; self.saved = {}; self.panel = None; self.panels = []
    def __call__(self): pass
    def figure(self, *a, **k): self.panels = []; self.subplot(); return self
    def subplot(self, *a, **k): self.panel = dict(curves=[], legend=None, title=''); self.panels.append(self.panel); return self
    def scatter(self, x, y, *a, **k): self.draw('points', x, y, k); return self
    def plot(self, x, y, *a, **k): self.draw('line', x, y, k); return [self]
    def legend(self, labels=None, *a, **k):
        if labels is not None: self.panel['legend'] = list(labels)
    def title(self, t, *a, **k): self.panel['title'] = t
    def savefig(self, path, *a, **k):
        self.saved.setdefault(os.path.basename(path), []).append((os.path.dirname(path), self.panels))

    def draw(self, kind, x, y, k):
        if self.panel is None: self.figure()
        self.panel['curves'].append((kind, x, y, k.get('label')))

    def gcf(self): return self
    def gca(self): return self
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        if n in ('xlim', 'ylim', 'xlabel', 'ylabel', 'set_size_inches', 'close', 'tight_layout', 'clf', 'cla', 'grid', 'suptitle', 'rc', 'ioff', 'ion', 'switch_backend',
                 'xticks', 'yticks', 'subplots_adjust', 'rcParams', 'style', 'annotate', 'text', 'set_facecolor', 'margins'): return lambda *a, **k: None
        self.env.unsupported(f'drawing with {n}')


def same(a, b):
    """the two are the same value (not merely equal for some inputs)"""
    a, b = item(a), item(b)
    pa, pb = getattr(a, 'p', None), getattr(b, 'p', None)
    if pa is not None or pb is not None: return pa is not None and pb is not None and pa == pb
    return abs(float(a) - float(b)) < 1e-12


def item(v): return v.reshape(-1)[0] if getattr(v, 'shape', None) not in (None, ()) else v


def data(env, near):
    """results of the modified model on the 33 shocks: arbitrary at the three shocks of the table and two others, listed elsewhere"""
    base = env.exp(r * T / 2)
    at = {2, 30}
    for j in ((16, 17) if near == 'any' else (near,)): at |= {j - 8, j, j + 8}
    at = sorted(at)
    o = {}

    def series(name, c, lo, hi):
        v = [env.real(f'{name}{k}', lo=lo, hi=hi) if k in at else number(k, c, lo, hi) for k in range(K)]
        o[name] = env.asarray(v)
    for c, (n, lo, hi) in enumerate((('Lt', 0.05, 20.0), ('Bt', 0.05, 20.0), ('Et', 0.05, 20.0), ('sigEt', 0.05, 3.0), ('mdef', 0.0, 10.0), ('sigLt', 0.02, 2.0), ('Gt', 0.0, 5.0))): series(n, c, lo, hi)
    mid = 16 if near == 'any' else near
    m = []
    for k in range(K):
        if near == 'any' and k in (16, 17): m.append(env.real(f'mFt{k}', lo=1.0, hi=1.1))
        elif k in at and k != near: m.append(env.real(f'mFt{k}', lo=float(base) * 1.03 ** (k - mid - 0.45), hi=float(base) * 1.03 ** (k - mid + 0.45)))
        else: m.append(float(base) * 1.03 ** (k - mid) + (0.0004 if k == mid else 0.0))
    o['mFt'] = env.asarray(m)
    for c, (n, lo, hi) in enumerate((('LH', 0.1, 1.5), ('BH', 0.1, 1.2), ('EH', 0.0, 0.9), ('FH', 0.1, 2.5), ('face', 0.3, 0.9), ('default', 0.0, 1.0), ('F', 0.3, 0.9))):
        o[n] = env.asarray([[env.real(f'{n}{i},{k}', lo=lo, hi=hi) if k in at and i < 2 and n not in ('default', 'F') else number(i * K + k, c + 9, lo, 0.5 * hi) for k in range(K)] for i in range(ROWS)])
    o['mu'] = 0.03
    # the standard model fitted to equity value and volatility
    low = at[2]
    o['A'] = [env.real(f'A{k}', lo=0.3, hi=1.5 if k == low else 10.0) if k in at else number(k, 31, 0.4, 1.4) for k in range(K)]
    o['s'] = [env.real(f's{k}', lo=-0.6 if k == low and near != 'any' else 0.01, hi=1.0) if k in at else number(k, 33, 0.05, 0.4) for k in range(K)]
    return o, at


def debt(env): return 0.63 * env.exp(r * H) * sum(env.exp(r * t) for t in range(1, T + 1)) / T


def shock(env, o, near):
    """the shock whose mean borrower asset value is nearest to exp(rT/2)"""
    gap = [o['mFt'][k] - env.exp(r * T / 2) for k in range(K)]
    gap = [v if env.is_true(v >= 0) else -v for v in gap]
    best = 0
    for k in range(1, K):
        if env.is_true(gap[k] < gap[best]): best = k
    return best


def lookup(env, tag):
    """a look-up table: asset value, debt, equity, mean borrower assets, default probability and equity volatility on a 2 x 1 x 1 x 2 grid"""
    return [env.asarray([[[[env.real(f'{tag}{n}{i}{q}', lo=0.01, hi=5.0) for q in range(2)]]] for i in range(2)]) for n in ('L', 'B', 'E', 'F', 'mdef', 'sigE')]


def simulate(env, near=16, Nsim=7, direc='/nowhere/figures'):
    """one run of the study; every model, root finder, interpolation and drawing routine is a stand-in"""
    import numpy as np
    o, at = data(env, near)
    log = dict(runs=[], tables=[], grid=[], text=[], cwd=os.getcwd(), formatted=[])
    D = debt(env)
    for k in at:
        A, sv = fitted(env, o, k)
        env.assume(D * env.exp(-r * H) - put(env, A, sv, D) > 0)      # holds for every put; the solver knows too little of the normal distribution

    def compute(fs, param, N, Nsim2, w=None, random_seed=1):
        log['runs'].append((fs, param, N, Nsim2, w, random_seed))
        return tuple(o[n] for n in NAMES)
    env.patch(PKG + 'mod_merton_computation', 'mod_merton_computation', compute)

    def tables(kind):
        def make(d, y, T, H, bookD, rho, ltv, xfs, xr, xF, xsig, N, Nsim2):
            t = lookup(env, f"{kind}{len(log['tables'])}")
            log['tables'].append((kind, dict(d=d, y=y, T=T, H=H, bookD=bookD, rho=rho, ltv=ltv, N=N, Nsim2=Nsim2), (xfs, xr, xF, xsig), t))
            return tuple(t)
        return make
    env.patch(PKG + 'mod_merton_create_lookup', 'mod_merton_create_lookup', tables('staggered'))
    env.patch(PKG + 'mod_single_merton_create_lookup', 'mod_single_merton_create_lookup', tables('single'))
    seen = []

    bank = D

    def errors(x, E, D, r, d, T, sigE):
        k = [k for k in range(K) if same(E, o['Et'][k])]
        if len(k) != 1: env.fail('the standard Merton model is fitted to something that is no equity value of the modified model')
        k = k[0]; seen.append(k)
        for v, want, n in ((D, bank, 'debt'), (r, RATE, 'rate'), (d, y, 'payout rate'), (T, H, 'maturity')): env.eq(v, want, f'{n} in the standard Merton model')
        env.eq(item(sigE), o['sigEt'][k], f'equity volatility fitted at shock {k}')
        return env.fn('equity error', float(k), float(x[0]), float(x[1])), env.fn('volatility error', float(k), float(x[0]), float(x[1]))
    env.patch(PKG + 'merton_solution', 'merton_solution', errors)

    def solve(func, x0, args=(), full_output=0, **k):
        args = args if isinstance(args, tuple) else (args,)
        seen.clear()
        e = func(np.array([0.8, 0.21]), *args)
        if len(set(seen)) != 1: env.unsupported('the standard Merton model is fitted in another way')
        k = seen[0]
        want = errors(np.array([0.8, 0.21]), o['Et'][k], D, r, y, H, o['sigEt'][k])
        for i in range(2): env.eq(e[i], want[i], 'equation of the standard Merton model')
        x = env.asarray([o['A'][k], o['s'][k]])
        return (x, {}, 1, '') if full_output else x
    env.patch('scipy.optimize', 'fsolve', solve)

    def griddata(points, values, xi, method='linear', **k):
        i = len(log['grid'])
        v = [env.real(f'interpolated{i},{n}', lo=0.0, hi=5.0) if n in at else number(n, 40 + i, 0.0, 1.0) for n in range(K)]
        log['grid'].append((columns(points), values, columns(xi), method, v))
        return env.asarray(v)
    env.patch('scipy.interpolate', 'griddata', griddata)
    fig = Figures(env)
    env.provide('matplotlib.pyplot', fig)
    env.patch(PKG + 'mod_merton_simulation', 'print', lambda *a, sep=' ', end='\n', **k: log['text'].append(sep.join(str(x) for x in a) + end))
    run = env.mod(PKG + 'mod_merton_simulation').simulate
    core.FORMATTED = log['formatted'] if env.symbolic else None
    try:
        with warnings.catch_warnings():
            if Nsim is None: run(direc=direc)
            elif direc is None: run(Nsim)
            else: run(Nsim, direc)
    finally: core.FORMATTED = None
    return o, log, fig, D


def columns(p):
    """points as two columns, whichever way they are given"""
    if isinstance(p, (tuple, list)): return [flatten(p[0]), flatten(p[1])]
    return [flatten(p[:, 0]), flatten(p[:, 1])]


def flatten(a): return [v for v in a.reshape(-1)] if hasattr(a, 'reshape') else list(a)


def series(env, a, want, msg):
    a = flatten(a) if hasattr(a, 'shape') else list(a)
    env.check(len(a) == len(want), f'{msg}: {len(a)} values')
    for k in range(len(want)): env.eq(item(a[k]), want[k], f'{msg} [{k}]', scale=1.0)


def merton(env, A, s, D):
    return (env.log(A) - env.log(D) + (r - y - s * s / 2) * H) / (s * env.sqrt(float(H)))


def put(env, A, s, D):
    sd = s * env.sqrt(float(H))
    d1 = (env.log(A / D) + (r - y + s * s / 2) * H) / sd
    return D * env.exp(-r * H) * env.cdf(-(d1 - sd)) - A * env.exp(-y * H) * env.cdf(-d1)


def fitted(env, o, k):
    s = o['s'][k]
    return o['A'][k], s if env.is_true(s >= 0.0001) else 0.0001


LABELS = ('Agg. Borrower Asset Value', 'Bank Asset Value', 'Bank Market Equity/Market Assets', 'Bank 5Y RN Default Prob.', 'Bank Credit Spread (%)', 'Merton 5Y RN Default Prob.', 'Merton Credit Spread (%)')
NEAR = [dict(near=16), dict(near=12), dict(near=21), dict(near='any')]
BB = 'results of the modified model arbitrary at five of the 33 shocks (those of the table among them; nine where the central shock is arbitrary) and listed elsewhere; fitted asset values and volatilities, look-up tables and interpolated values likewise'


def row(env, log, label):
    lines = [l for l in ''.join(log['text']).splitlines() if l.strip().startswith(label)]
    env.check(len(lines) == 1, f'one row {label} in the table')
    toks = lines[0].strip()[len(label):].split()
    env.check(len(toks) == 3, f'{label}: three columns')
    return toks


def cell(env, log, tok, want, msg):
    m = re.fullmatch('\u27e6(\\d+)\u27e7', tok)
    if m:
        v, spec = log['formatted'][int(m.group(1))]
        env.eq(v, want, msg, scale=1.0, visible=0.011)      # two decimals are shown
    else:
        env.eq(want, want, msg)      # the text is rounded: what is observed is the value it should show
        if getattr(want, 'p', None) is None:
            if not abs(float(want) - float(tok)) <= 0.0051: env.fail(msg + f': {tok} shown for {float(want):.4f}')
        else:
            diff = want - float(tok)
            env.check(diff <= 0.0051, msg + f' (shown {tok})'); env.check(diff >= -0.0051, msg + f' (shown {tok})')


@ob('C39', quick=NEAR, thorough=[dict(near=j) for j in range(8, 25, 2)] + [dict(near='any')], bounds=BB, max_paths=400)
def table(env, near):
    """the printed table: properties of the modified model and of the fitted standard model at the shock nearest to no change and eight steps up and down"""
    o, log, fig, D = simulate(env, near)
    j0 = shock(env, o, near)
    disc = D * env.exp(-r * H)
    cols = (j0, j0 + 8, j0 - 8)
    for label in LABELS:
        toks = row(env, log, label)
        for tok, k in zip(toks, cols):
            if label == LABELS[0]: v = o['mFt'][k]
            elif label == LABELS[1]: v = o['Lt'][k]
            elif label == LABELS[2]: v = o['Et'][k] / (o['Et'][k] + o['Bt'][k])
            elif label == LABELS[3]: v = o['mdef'][k]
            elif label == LABELS[4]: v = 100 * env.log(disc / o['Bt'][k]) / H
            else:
                A, s = fitted(env, o, k)
                if label == LABELS[5]: v = env.cdf(-merton(env, A, s, D))
                else: v = 100 * env.log(disc / (disc - put(env, A, s, D))) / H
            cell(env, log, tok, v, f'{label} at shock {k}')


def panels(env, fig, name, direc, count=1):
    hit = [n for n in fig.saved if n.startswith(name)]
    env.check(len(hit) == 1, f'{name} is saved')
    env.check(len(fig.saved[hit[0]]) == 1, f'{name} is saved once')
    where, ps = fig.saved[hit[0]][0]
    env.check(os.path.normpath(where or '.') == os.path.normpath(direc), f'{name} is saved in the directory asked for ({where})')
    ps = [p for p in ps if p['curves']]
    env.check(len(ps) == count, f'{name} has {count} panel(s)')
    return ps


def curves(env, fig, name, direc, want):
    p, = panels(env, fig, name, direc)
    env.check(len(p['curves']) == len(want), f'{name}: {len(want)} curves')
    labels = [c[3] for c in p['curves']]
    if None in labels: labels = p['legend'] or [None] * len(labels)
    if want.keys() != {None}: env.check(sorted(map(str, labels)) == sorted(map(str, want)), f'{name}: legend {labels}')
    for (kind, x, yv, _), lab in zip(p['curves'], labels):
        wx, wy = want[lab]
        series(env, x, wx, f'{name}, horizontal axis of {lab}')
        series(env, yv, wy, f'{name}, {lab}')


@ob('C39', quick=[dict(near=16, direc='/nowhere/figures'), dict(near=20, direc=None)], thorough=[dict(near=j, direc='/nowhere/figures') for j in (8, 14, 16, 24)] + [dict(near='any', direc=None)], bounds=BB, max_paths=400)
def figures(env, near, direc):
    """figures 3 to 5: borrower assets against equity, and the default probabilities of the models"""
    o, log, fig, D = simulate(env, near, direc=direc)
    where = direc or log['cwd']
    mFt = flatten(o['mFt'])
    fit = [fitted(env, o, k) for k in range(K)]
    std = [env.cdf(-merton(env, A, s, D)) for A, s in fit]
    curves(env, fig, 'figure3', where, {None: (mFt, flatten(o['Et']))})
    mdef = flatten(o['mdef'])
    curves(env, fig, 'figure4', where, {'Actual': (mFt, mdef), 'Merton Model': (mFt, std)})
    own = [env.cdf(-merton(env, o['Lt'][k], o['sigLt'][k], D)) for k in range(K)]
    curves(env, fig, 'figure5_panel_b', where, {'Actual': (mFt, mdef), 'Merton w/ actual asset value and volatility': (mFt, own), 'Merton Model': (mFt, std)})
    cohort, borrower = alternatives(env, log, o)
    curves(env, fig, 'figure5_panel_a', where, {'Actual': (mFt, mdef), 'Single cohort': (mFt, cohort), 'Single borrower': (mFt, borrower), 'Merton Model': (mFt, std)})


def alternatives(env, log, o):
    """default probabilities of the single-cohort and single-borrower models at the equity value and volatility of the modified model"""
    out = []
    for rho, sig in ((0.5, 0.2), (0.99, 0.2 * 0.5 ** 0.5)):
        ts = [t for t in log['tables'] if t[0] == 'single' and abs(float(t[1]['rho']) - rho) < 1e-9 and abs(float(item(t[2][3])) - sig) < 1e-9]
        env.check(len(ts) == 1, f'a look-up table of the single-cohort model with correlation {rho} and volatility {sig:.4f}')
        kind, kw, (xfs, xr, xF, xsig), t = ts[0]
        tE, tsig, tmdef = flatten(t[2]), flatten(t[5]), flatten(t[4])
        E, sE = flatten(o['Et']), flatten(o['sigEt'])
        hits = []
        for pts, vals, xi, method, v in log['grid']:
            if method != 'cubic': continue
            for a, b in ((0, 1), (1, 0)):
                if match(pts[a], tE) and match(pts[b], tsig) and match(xi[a], E) and match(xi[b], sE) and match(flatten(vals), tmdef): hits.append(v); break
        env.check(len(hits) >= 1, f'default probability of the single-cohort model with correlation {rho} interpolated at equity value and volatility')
        out.append(hits[0])
    return out


def match(a, b): return len(a) == len(b) and all(same(u, v) for u, v in zip(a, b))


@ob('C39', quick=[dict(near=16), dict(near=11)], thorough=[dict(near=j) for j in (8, 16, 24)] + [dict(near='any')], bounds=BB, max_paths=400)
def payoffs(env, near):
    """figure 2: payoffs at bank debt maturity at the central shock, and those of the standard model as lines"""
    o, log, fig, D = simulate(env, near)
    j0 = shock(env, o, near)
    ps = panels(env, fig, 'figure2', '/nowhere/figures', 3)
    FH = [o['FH'][i, j0] for i in range(ROWS)]; face = [o['face'][i, j0] for i in range(ROWS)]
    top = face[0]
    for v in face[1:]: top = v if env.is_true(v > top) else top
    m = top * env.exp(-r * ((T - H) / 2))
    pts = ([o['LH'][i, j0] + face[i] * (env.exp(y * H) - 1) for i in range(ROWS)], [o['EH'][i, j0] for i in range(ROWS)], [o['BH'][i, j0] for i in range(ROWS)])
    lines = ([((0, m), (0, m)), ((m, 2.5), (m, m))], [((0, D), (0, 0)), ((D, m), (0, m - D)), ((m, 2.5), (m - D, m - D))], [((0, D), (0, D)), ((D, 2.5), (D, D))])
    for p, v, ls, n in zip(ps, pts, lines, ('asset value', 'equity', 'debt')):
        sc = [c for c in p['curves'] if c[0] == 'points']; ln = [c for c in p['curves'] if c[0] == 'line']
        env.check(len(sc) == 1, f'one cloud of {n} payoffs')
        series(env, sc[0][1], FH, f'figure 2, borrower assets in the {n} panel')
        series(env, sc[0][2], v, f'figure 2, {n}')
        env.check(len(ln) == len(ls), f'figure 2, {n}: {len(ls)} lines')
        for (_, x, yv, _), (wx, wy) in zip(ln, ls):
            series(env, x, wx, f'figure 2, line in the {n} panel'); series(env, yv, wy, f'figure 2, line in the {n} panel')


@ob('C39', quick=[dict(Nsim=7), dict(Nsim=200), dict(Nsim=None)], bounds='the documented calibration; 7, 200 or the default number of simulations')
def calibration(env, Nsim):
    """the models are run on the documented shocks and parameters"""
    o, log, fig, D = simulate(env, 16, Nsim)
    if Nsim is None: Nsim = 10000
    unit = 0.2 * 0.5 ** 0.5 * 10 ** 0.5
    env.check(len(log['runs']) == 1, 'the modified model is run once')
    fs, param, n, ns, w, seed = log['runs'][0]
    series(env, fs, [(-0.8 + 0.05 * i) / unit for i in range(K)], 'factor shocks')
    env.check(int(n) == N and int(ns) == Nsim and w is None and seed == 1, f'cohorts {n}, simulations {ns}, seed {seed}')
    series(env, list(param), [r, T, 0.66, H, D, 0.5, 0.66, 0.2, d, y, G], 'parameters of the modified model')
    low = [(-2.6 + 0.05 * i) / unit for i in range(69)]
    bd = 0.63 * sum(env.exp(r * t) for t in range(1, T + 1)) / T
    want = {('single', 0.5): 0.2, ('single', 0.99): 0.2 * 0.5 ** 0.5}
    got = {}
    for kind, kw, (xfs, xr, xF, xsig), t in log['tables']:
        if kind != 'single': continue
        got[kind, round(float(kw['rho']), 6)] = float(item(xsig))
        for nm, v in dict(d=d, y=y, T=5, H=H, bookD=bd, ltv=0.66, N=N, Nsim2=Nsim).items(): env.eq(kw[nm], v, f'{nm} of the single-cohort model')
        env.check(xfs.shape == xF.shape == xsig.shape == xr.shape and xfs.shape == (len(low), 1, 1, 105), f'grid of shape {xfs.shape}')
        series(env, xfs[:, 0, 0, 0], low, 'shocks of the look-up table'); series(env, xfs[:, 0, 0, 104], low, 'shocks of the look-up table')
        series(env, xF[0, 0, 0, :], [0.4 + 0.01 * i for i in range(105)], 'loan face values of the look-up table')
        series(env, xF[68, 0, 0, :], [0.4 + 0.01 * i for i in range(105)], 'loan face values of the look-up table')
        env.eq(item(xr), r, 'rate of the look-up table')
    env.check(set(got) == set(want), f'look-up tables {sorted(got)}')
    for k, v in want.items(): env.eq(got[k], v, f'volatility of the look-up table {k}')
