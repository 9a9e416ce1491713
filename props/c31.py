"""C31 modified Merton bank valuation"""
import math
from symx.harness import ob
from symx import core
from props.rngspec import patch_rng

PKG = 'frds.measures.modified_merton.'
cdf = lambda x: core._ncdf(float(x))


def payoff(F, f, ival, rho, sig, T):
    m = f + ival; s = sig * math.sqrt(T * (1 - rho)); d = (math.log(F) - m) / s
    return math.exp(m + (1 - rho) * sig ** 2 * T / 2) * cdf(d - s) + F * (1 - cdf(d))


def yield_error(mu, P):
    F = P['bookF'] * math.exp(mu * P['T']); v = math.log(P['bookF'] / P['ltv']); sig, T = P['sig'], P['T']
    d1 = (v - math.log(F) + (P['r'] - P['d'] + sig ** 2 / 2) * T) / (sig * math.sqrt(T)); d2 = d1 - sig * math.sqrt(T)
    L = math.exp(v - P['d'] * T) * cdf(d1) - 0.0
    put = F * math.exp(-P['r'] * T) * cdf(-d2) - math.exp(v - P['d'] * T) * cdf(-d1)
    L = F * math.exp(-P['r'] * T) - put
    return mu - math.log(F / L) / T


def promised_yield(P):
    lo, hi = P['r'], P['r'] + 0.5
    for _ in range(80):
        m = (lo + hi) / 2
        if yield_error(lo, P) * yield_error(m, P) <= 0: hi = m
        else: lo = m
    return (lo + hi) / 2


W = [0.31, -1.2, 0.74, 1.9, -0.43, 0.08, -0.66, 1.13, 0.52, -1.71, 0.97, -0.22, 0.65, -0.9, 1.4, 0.17, -0.58, 0.36, 1.05, -1.33, 0.81, -0.05, 0.46, -0.77, 1.62, -0.12, 0.28]


def staggered(P, w, fs, N):
    """per cohort: sort keys, payoffs, scale, discount; plus FH, face, Ft"""
    r, T, rho, sig, ltv, bF = (P[k] for k in ('r', 'T', 'rho', 'sig', 'ltv', 'bookF'))
    HN = round(P['H'] * N / T); sf = math.sqrt(rho) * sig; dt = T / N; ival = math.log(bF / ltv)
    mu = promised_yield(P); F = bF * math.exp(mu * T)
    S = len(w); J = 3 * len(fs)
    f = [[0.0] for _ in range(S)]; fw = [[0.0] for _ in range(S)]
    for s in range(S):
        for k in range(3 * N):
            f[s].append(f[s][-1] + (r - P['d'] - 0.5 * sig ** 2) * dt + sf * math.sqrt(dt) * w[s][k])
            fw[s].append(fw[s][-1] - 0.5 * rho * sig ** 2 * dt + sf * math.sqrt(dt) * w[s][k])
    co = []
    FH = {}; face = {}; Ft = {}
    for c in range(N):
        key, pay, sc, disc = {}, {}, {}, {}
        for s in range(S):
            for j in range(J):
                base = fs[j % len(fs)]; step = (0, sf / 10, -sf / 10)[j // len(fs)]
                f0w = fw[s][N] - fw[s][c]; age = (N - c) / N
                fsa = base * sf * math.sqrt(T) * age + step
                L1 = payoff(F, f[s][N + c] - f0w - f[s][c] + fsa, ival, rho, sig, T)
                aH = (HN - c) / N if c <= HN else (N + HN - c) / N
                ad = 0.5 * (1 - rho) * T * aH * sig ** 2
                if c < HN:      # rolled over between t and t+H
                    iv2 = math.log(L1 / ltv); F2 = L1 * math.exp(mu * T); k = L1 / bF
                    L = payoff(F2, f[s][2 * N + c] - f[s][N + c], iv2, rho, sig, T) / k
                    fh = math.exp(f[s][N + HN] - f[s][N + c] + iv2 + ad) / k
                    rem = c - HN + N; fc = F2
                else:
                    k = 1.0; L = L1
                    fh = math.exp(f[s][N + HN] - f0w - f[s][c] + fsa + ival + ad)
                    rem = c - HN; fc = F
                dc = math.exp(-r * rem * dt)
                key[s, j], pay[s, j], sc[s, j], disc[s, j] = fh, L, k, dc
                FH[s, j] = FH.get((s, j), 0) + fh / N; face[s, j] = face.get((s, j), 0) + fc * dc / N
                Ft[s, j] = Ft.get((s, j), 0) + math.exp(f[s][N] - f0w - f[s][c] + fsa + ival + 0.5 * (1 - rho) * T * age * sig ** 2) / N
        co.append((key, pay, sc, disc))
    return co, FH, face, Ft, mu, F


def single(P, w, fs, N):
    r, T, rho, sig, ltv, bF, H = (P[k] for k in ('r', 'T', 'rho', 'sig', 'ltv', 'bookF', 'H'))
    HN = round(H * N / T); sf = math.sqrt(rho) * sig; dt = T / N; ival = math.log(bF / ltv)
    mu = promised_yield(P); F = bF * math.exp(mu * T)
    key, pay, sc, disc, FH, face, Ft = {}, {}, {}, {}, {}, {}, {}
    for s in range(len(w)):
        f = [0.0]
        for k in range(N): f.append(f[-1] + (r - P['d'] - 0.5 * sig ** 2) * dt + sf * math.sqrt(dt) * w[s][k])
        for j in range(3 * len(fs)):
            a = fs[j % len(fs)] * sf * math.sqrt(T) + (0, sf / 10, -sf / 10)[j // len(fs)]
            pay[s, j] = payoff(F, f[N] + a, ival, rho, sig, T)
            key[s, j] = FH[s, j] = math.exp(f[HN] + a + ival + 0.5 * (1 - rho) * H * sig ** 2)
            sc[s, j] = 1.0; disc[s, j] = math.exp(-r * (T - H)); face[s, j] = F * disc[s, j]; Ft[s, j] = math.exp(a + ival)
    return [(key, pay, sc, disc)], FH, face, Ft, mu, F


def install(env, P, cohorts, n):
    """fsolve returns the promised yield; the smoother returns arbitrary positive conditional payoffs"""
    import numpy as np
    log = dict(solved=0, smooth=[])
    mu = promised_yield(P)

    def solve(func, x0, args=(), **k):
        g = lambda m: float(np.asarray(func(m if np.ndim(x0) == 0 else np.array([m])), dtype=float).reshape(-1)[0])
        for m in (mu, mu + 0.02, mu + 0.1): env.check(abs(g(m) - yield_error(m, P)) < 1e-7, 'the promised yield solves the face-value equation')
        log['solved'] += 1
        return np.array([mu])
    env.patch('scipy.optimize', 'fsolve', solve)

    def smooth(x, w):
        c = len(log['smooth'])
        v = [env.real(f'payoff{c}_{i}', lo=0.01, hi=5.0) for i in range(n)]
        log['smooth'].append(([float(x[i]) for i in range(len(x))], w, v))
        return env.asarray(v)
    env.patch(PKG + 'fftsmooth', 'fftsmooth', smooth)
    return log


def ranks(key, S, J):
    order = sorted(((round(key[s, j], 9), j * S + s), (s, j)) for s in range(S) for j in range(J))
    return {sj: i for i, (_, sj) in enumerate(order)}, [sj for _, sj in order]


NAMES = ('Lt', 'Bt', 'Et', 'LH', 'BH', 'EH', 'sigEt', 'mFt', 'default', 'mdef', 'face', 'FH', 'Gt', 'mu', 'F', 'sigLt')


def check_all(env, model, N, S, fs, H, T, draws, seed, col, g_given, y):
    P = dict(r=0.02, T=float(T), bookF=0.66, H=float(H) if T != H * N else H, rho=0.5, ltv=0.7, sig=0.25, d=0.005)
    cols = 3 * N if model == 'staggered' else N
    w = [[W[(s * cols + k) % len(W)] + 0.01 * s for k in range(cols)] for s in range(S)]
    J = 3 * len(fs)
    import numpy as np
    log = install(env, P, N, S * J)
    co, FH, face, Ft, mu, F = (staggered if model == 'staggered' else single)(P, w, fs, N)
    D = env.real('D', lo=0.05, hi=3.0)
    if y is None: y = env.real('y', lo=0.001, hi=0.1)
    g = env.real('g', lo=0.0, hi=1.0) if g_given else 0.0
    param = [P['r'], T, P['bookF'], H, D, P['rho'], P['ltv'], P['sig'], P['d'], y] + ([g] if g_given else [])
    fa = np.array(fs).reshape(-1, 1) if col else np.array(fs)
    if draws == 'seeded':
        u = [[cdf(w[s][k]) for k in range(cols)] for s in range(S)]

        def rand(self, *shape):
            env.check(tuple(shape) in ((cols, S), (S, cols)), f'random draws of shape {shape}')
            a = np.array(u)
            return a.T if tuple(shape) == (cols, S) else a
        seeds = patch_rng(env, {'rand': rand})
    name = 'mod_merton_computation' if model == 'staggered' else 'mod_single_cohort_computation'
    fn = getattr(env.mod(PKG + name), name)
    if draws == 'seeded':
        out = fn(fa, param, N, S, random_seed=seed) if seed is not None else fn(fa, param, N, S)
        env.check(seeds == [1 if seed is None else seed], f'generator seeded with {seed}: {seeds}')
    else: out = fn(fa, param, N, S, np.array(w))
    if log['solved'] != 1 or len(log['smooth']) != len(co): env.unsupported('the yield or the conditional payoffs are computed in another way')
    out = dict(zip(NAMES, out))
    rk = []
    for c, (key, pay, sc, disc) in enumerate(co):
        x, win, v = log['smooth'][c]
        rank, order = ranks(key, S, J)
        env.check(len(x) == S * J, 'number of payoffs to smooth')
        for i, sj in enumerate(order): env.check(abs(x[i] - pay[sj]) < 1e-8, f'cohort {c}: payoff {i} in the order of asset values')
        env.check(win == int(S * J / 20), 'smoothing window')
        rk.append((rank, v))
    n = len(co)
    LH = {(s, j): sum(rk[c][1][rk[c][0][s, j]] * (co[c][2][s, j] * co[c][3][s, j] / n) for c in range(n)) for s in range(S) for j in range(J)}
    k = len(fs)
    ey = env.exp(-y * P['H']); er = math.exp(-P['r'] * P['H'])
    BH = {sj: env.min(D, v * ey) for sj, v in LH.items()}
    tab = lambda f: [[f(s, j) for j in range(k)] for s in range(S)]
    env.eq(out['LH'], tab(lambda s, j: LH[s, j]), 'loan portfolio payoff', scale=1e-3)
    env.eq(out['BH'], tab(lambda s, j: BH[s, j]), 'bank debt payoff', scale=1e-3)
    env.eq(out['EH'], tab(lambda s, j: LH[s, j] - BH[s, j]), 'bank equity payoff', scale=1e-3)
    mean = lambda t, j: sum(t[s, j] for s in range(S)) / S
    EH = {sj: LH[sj] - BH[sj] for sj in LH}
    GH = {sj: g * env.max(D - LH[sj] * ey, 0.0) for sj in LH}
    de = {sj: (0.0 if env.is_true(LH[sj] * ey > D) else 1.0) for sj in LH}
    for nm, t in (('Lt', LH), ('Bt', BH), ('Et', EH), ('Gt', GH)):
        env.eq(out[nm], [mean(t, j) * er for j in range(k)], f'{nm}: discounted average payoff', scale=1e-3)
    for j in range(k): env.eq(out['Lt'][j], out['Bt'][j] + out['Et'][j], 'asset value = debt value + equity value', scale=1e-3)
    env.eq(out['default'], tab(lambda s, j: de[s, j]), 'default flag'); env.eq(out['mdef'], [mean(de, j) for j in range(k)], 'default probability')
    env.eq(out['FH'], tab(lambda s, j: FH[s, j]), 'borrower asset value at debt maturity'); env.eq(out['face'], tab(lambda s, j: face[s, j]), 'face value')
    env.eq(out['mFt'], [mean(Ft, j) for j in range(k)], 'borrower asset value today')
    env.eq(out['mu'], mu, 'promised yield'); env.eq(out['F'], F, 'loan face value')
    for nm, t in (('sigEt', EH), ('sigLt', LH)):
        env.eq(out[nm], [5 * (env.log(mean(t, k + j)) - env.log(mean(t, 2 * k + j))) for j in range(k)], nm + ': volatility from a step of a tenth of a standard deviation', scale=1e-2)


B = 'debt face value in [0.05, 3], payout rate in [0, 0.1], guarantee share in [0, 1] and the conditional loan payoffs of every path and cohort arbitrary; factor shocks, rate, maturities and loan terms fixed; '


Q = [dict(N=2, S=1, fs=(0.3,), H=1, T=2, draws='given', g=True, col=False), dict(N=2, S=2, fs=(-0.4,), H=5, T=10, draws='given', g=True, col=False, y=0.002), dict(N=3, S=1, fs=(0.2,), H=1, T=3, draws='seeded', seed=4, g=True, col=True, y=0.0),
     dict(N=2, S=1, fs=(0.3,), H=1, T=2, draws='seeded', g=False, col=False, y=0.05), dict(N=3, S=1, fs=(0.1, -0.6), H=2, T=3, draws='given', g=True, col=True, y=0.01)]
T3 = [dict(N=n, S=1, fs=fs, H=h, T=n, draws=d, g=True, col=c, y=y) for n in (2, 3, 4) for h in range(1, n) for fs, d, c, y in (((0.3,), 'given', False, 0.03), ((-0.5,), 'seeded', True, 0.0))]


@ob('C31', quick=Q, thorough=Q + T3 + [dict(N=2, S=3, fs=(0.5,), H=1, T=2, draws='given', g=True, col=False, y=0.01)],
    bounds=B + '2 or 3 cohorts (4 thorough), 1 or 2 paths (3 thorough), 1 or 2 factor values', max_paths=3000, time_s=300, feas_timeout=2000)
def cohorts(env, N, S, fs, H, T, draws, g, col, seed=None, y=None): check_all(env, 'staggered', N, S, list(fs), H, T, draws, seed, col, g, y)


@ob('C31', quick=Q + [dict(N=2, S=1, fs=(0.3,), H=2, T=2, draws='given', g=True, col=False, y=0.01)], thorough=Q + T3 + [dict(N=2, S=3, fs=(0.5,), H=1, T=2, draws='given', g=True, col=False, y=0.01)],
    bounds=B + '2 or 3 time steps (4 thorough), 1 or 2 paths (3 thorough), 1 or 2 factor values', max_paths=3000, time_s=300, feas_timeout=2000)
def one_cohort(env, N, S, fs, H, T, draws, g, col, seed=None, y=None): check_all(env, 'single', N, S, list(fs), H, T, draws, seed, col, g, y)


@ob('C31', quick=[dict(model=m, dims=d) for m in ('staggered', 'single') for d in ((2, 1, 3, 2), (1, 2, 2, 1), (3, 2, 1, 2))], thorough=[dict(model=m, dims=d) for m in ('staggered', 'single') for d in ((2, 1, 3, 2), (1, 2, 2, 1), (3, 2, 1, 2), (2, 3, 3, 3))],
    bounds='grids with up to 3 points per axis, arbitrary grid values and loan terms; the valuation of one point is an arbitrary function of its arguments', max_paths=200)
def lookup(env, model, dims):
    import numpy as np
    Gn, J, K, Q_ = dims
    N, S = 2, 2
    name = 'mod_merton_computation' if model == 'staggered' else 'mod_single_cohort_computation'
    shocks = []

    def rand(self, *shape):
        a = np.array([0.07 * (i + 1) for i in range(12)])
        shocks.append(shape)
        return a[:int(np.prod(shape))].reshape(shape)
    seeds = patch_rng(env, {'rand': rand})
    ws = []; funs = {}

    def compute(fs, param, n, nsim, w=None, random_seed=1):
        env.check(n == N and nsim == S, 'cohorts and paths'); env.check(w is not None, 'the same shocks for every grid point')
        ws.append(w)
        f = [fs[i] if np.ndim(fs) == 1 else fs[i][0] for i in range(len(fs))]
        v = [env.asarray([env.fn(nm, f[i], *list(param)) for i in range(len(f))]) for nm in NAMES]
        return tuple(v)
    env.patch(PKG + name, name, compute)
    arr = lambda nm: env.arr(nm, (Gn, J, K, Q_))
    xfs, xr, xF, xsig = (arr(n) for n in ('xfs', 'xr', 'xF', 'xsig'))
    d, y, T, H, bookD, rho, ltv = (env.real(n, lo=0.01, hi=2.0) for n in ('d', 'y', 'T', 'H', 'bookD', 'rho', 'ltv'))
    mod = 'mod_merton_create_lookup' if model == 'staggered' else 'mod_single_merton_create_lookup'
    out = getattr(env.mod(PKG + mod), mod)(d, y, T, H, bookD, rho, ltv, xfs, xr, xF, xsig, N, S)
    env.check(len(out) == 6, 'six tables')
    env.check(all(np.array_equal(np.asarray(w, dtype=float), np.asarray(ws[0], dtype=float)) for w in ws), 'the same shocks for every grid point')
    for nm, t in zip(('Lt', 'Bt', 'Et', 'mFt', 'mdef', 'sigEt'), out):
        want = [[[[env.fn(nm, xfs[g, 0, 0, 0], xr[0, j, k, q], T, xF[0, j, k, q], H, bookD * env.exp(xr[0, j, k, q] * H), rho, ltv, xsig[0, j, k, q], d, y) for q in range(Q_)] for k in range(K)] for j in range(J)] for g in range(Gn)]
        env.eq(t, want, f'table of {nm}')
