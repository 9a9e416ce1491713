"""C21 distress insurance premium"""
from symx.harness import ob
from props import longspec as L
from props.rngspec import patch_rng

# buckets of single-bank losses that a triangular draw may fall in
BUCKETS = [11, 40, 55, 80, 99, 100]


def install(env, buckets):
    """seeded generator: normal draws are arbitrary, triangular draws arbitrary within a chosen bucket ((k-1)/100, k/100]"""
    import numpy as np
    normals, tris, memo = [], [], {}

    def normal(self, loc=0.0, scale=1.0, size=None):
        shape = (size,) if isinstance(size, int) else tuple(size)
        n = int(np.prod(shape)); k = len(normals)
        for i in range(k, k + n):
            if ('n', i) not in memo: memo['n', i] = env.real(f'normal{i}')
        v = [memo['n', i] for i in range(k, k + n)]
        normals.extend(v)
        a = env.asarray(v).reshape(shape)
        return a if loc == 0 and scale == 1 else loc + scale * a

    def tri(self, left, mode, right, size=None):
        if (float(left), float(mode), float(right)) != (0.1, 0.55, 1.0): env.fail(f'triangular({left}, {mode}, {right})')
        shape = (size,) if isinstance(size, int) else tuple(size)
        n = int(np.prod(shape)); v = []
        for i in range(n):
            if len(tris) not in memo:
                b = buckets[env.choose(len(buckets), f'bucket {len(tris)}')]
                memo[len(tris)] = env.real(f'tri{len(tris)}', lo=(b - 0.9) / 100, hi=(b - 0.1) / 100)
            x = memo[len(tris)]
            tris.append(x); v.append(x)
        return env.asarray(v).reshape(shape)
    seeds = patch_rng(env, {'normal': normal, 'standard_normal': lambda self, size=None: normal(self, size=size), 'triangular': tri})
    return seeds, normals, tris


def ceil(env, x, hi):
    k = 0
    while k < hi and not env.is_true(x <= k): k += 1
    return k


def inputs(env, n):
    p = [env.real(f'pd{i}', lo=0.001, hi=0.999) for i in range(n)]
    C = [[1.0] * n for _ in range(n)]
    if n > 1:
        c = env.real('corr', lo=-0.9, hi=0.9)
        C[0][1] = C[1][0] = c
        if n == 3: C[0][2] = C[2][0] = 0.25; C[1][2] = C[2][1] = 0.0
    return p, C


def chol(env, C):
    n = len(C); L = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = C[i][j] - sum(L[i][k] * L[j][k] for k in range(j))
            L[i][j] = env.sqrt(s) if i == j else s / L[j][j]
    return L


def spec(env, n, p, C, normals, tris, nret, nsim, first):
    L = chol(env, C)
    counts = [0] * (n + 1)
    for s in range(nret):
        e = normals[s * n:(s + 1) * n]
        d = 0
        for i in range(n):
            z = sum(L[i][j] * e[j] for j in range(i + 1))
            if env.is_true(z < env.ppf(p[i])): d += 1
        counts[d] += 1
    out = 0.0; pos = 0
    for i in range(n):
        for s in range(nsim):
            loss = sum(tris[pos + k * nsim + s] for k in range(i + 1))
            b = bucket(env, loss, n)
            if first(b): out = out + (b / 100) * (counts[i + 1] / nret) / nsim
        pos += (i + 1) * nsim
    return out


def bucket(env, loss, n):
    x = loss * 100
    lo, hi = 1, n * 100
    while lo < hi:      # smallest b with x <= b
        mid = (lo + hi) // 2
        if env.is_true(x <= mid): hi = mid
        else: lo = mid + 1
    return lo


def run(env, p, C, *a, **k):
    return env.mod('frds.measures').DistressInsurancePremium(env.asarray(p), env.asarray(C)).estimate(*a, **k)


B = 'default probabilities in [0.001, 0.999], correlation in [-0.9, 0.9], normal draws arbitrary, triangular draws anywhere inside the listed buckets; every default pattern'
Q = [dict(n=1, nret=2, nsim=2, th=t, bs=(11, 55, 100)) for t in (0.15, 0.0, 0.55)] + [dict(n=2, nret=1, nsim=1, th=t, bs=(20, 60, 100)) for t in (0.15, 0.29, 0.6, 0.9)] + [dict(n=2, nret=2, nsim=1, th=0.5, bs=(60, 90))]


@ob('C21', quick=Q, thorough=Q + [dict(n=3, nret=1, nsim=1, th=0.3, bs=(20, 70)), dict(n=1, nret=3, nsim=2, th=0.155, bs=(15, 16, 17)), dict(n=2, nret=1, nsim=2, th=0.15, bs=(30, 55))],
    bounds='1 or 2 banks (3 thorough), 1-2 simulated returns, 1-2 simulated losses, thresholds 0, 0.15, 0.29, 0.5, 0.55, 0.6, 0.9: ' + B, max_paths=6000, guard_random=True, time_s=200)
def premium(env, n, nret, nsim, th, bs):
    seeds, normals, tris = install(env, bs)
    p, C = inputs(env, n)
    got = run(env, p, C, th, 5, nret, nsim)
    env.check(seeds == [5], 'one generator with the given seed')
    from fractions import Fraction
    t = Fraction(str(th)) * 100 * n
    env.check(len(normals) == nret * n and len(tris) == nsim * n * (n + 1) // 2, 'number of draws')
    want = spec(env, n, p, C, normals, tris, nret, nsim, lambda b: b >= t)
    env.eq(got, want, 'premium', scale=1e-6)
    env.check(got >= 0, 'not negative'); env.check(got <= n, 'at most the number of banks')


@ob('C21', quick=[dict(n=1, bs=(11, 55, 100)), dict(n=2, bs=(60,))], thorough=[dict(n=1, bs=(11, 30, 55, 100)), dict(n=2, bs=(20, 60))], bounds='1 or 2 banks, one simulated return, one simulated loss; neighbouring thresholds out of 0, 0.1, 0.15, 0.29, 0.57, 0.6, 0.99, 1: ' + B, max_paths=6000, guard_random=True, time_s=200)
def monotone(env, n, bs):
    ths = (0.0, 0.1, 0.15, 0.29, 0.57, 0.6, 0.99, 1.0)
    i = env.choose(len(ths) - 1, 'lower threshold')
    v = []
    seeds, normals, tris = install(env, bs)     # the same draws for both thresholds
    p, C = inputs(env, n)
    for th in (ths[i], ths[i + 1]):
        normals.clear(); tris.clear()
        v.append(run(env, p, C, th, 5, 1, 1))
    env.check(v[1] <= v[0] + 1e-12, 'does not increase when the threshold rises')


@ob('C21', quick=[dict(n=5, nret=60, nsim=20, th=t) for t in (0.15, 0.29, None)] + [dict(n=4, nret=60, nsim=20, th=0.55)], thorough=[dict(n=n, nret=200, nsim=40, th=t) for n in (5, 8) for t in (0.15, 0.29, None)],
    bounds='4 or 5 banks (8 thorough), 60 simulated returns and 20 simulated losses per number of defaults (200 and 40): any default probability of the first bank in [0.2, 0.4], any first loss draw in (0.551, 0.559); everything else listed numbers; thresholds 0.15, 0.29, 0.55 and the default', max_paths=300, time_s=250, guard_random=True)
def many_banks(env, n, nret, nsim, th):
    import numpy as np
    normals, tris = [], []
    first = env.real('tri0', lo=0.551, hi=0.559)

    def normal(self, loc=0.0, scale=1.0, size=None):
        shape = (size,) if isinstance(size, int) else tuple(size)
        k = len(normals)
        normals.extend(L.number(i, 1, -2.2, 1.5) for i in range(k, k + int(np.prod(shape))))
        a = env.asarray(normals[k:]).reshape(shape)
        return a if loc == 0 and scale == 1 else loc + scale * a

    def tri(self, left, mode, right, size=None):
        if (float(left), float(mode), float(right)) != (0.1, 0.55, 1.0): env.fail(f'triangular({left}, {mode}, {right})')
        shape = (size,) if isinstance(size, int) else tuple(size)
        k = len(tris)
        tris.extend((round(L.number(i, 2, 0.12, 0.98), 2) - 0.005) if i else first for i in range(k, k + int(np.prod(shape))))
        return env.asarray(tris[k:]).reshape(shape)
    seeds = patch_rng(env, {'normal': normal, 'standard_normal': lambda self, size=None: normal(self, size=size), 'triangular': tri})
    p = [env.real('pd0', lo=0.2, hi=0.4)] + [0.15 + 0.1 * i for i in range(1, n)]
    C = [[1.0 if i == j else round(0.6 / (1 + abs(i - j)), 3) for j in range(n)] for i in range(n)]
    got = run(env, p, C, th, 5, nret, nsim) if th is not None else run(env, p, C, random_seed=5, n_simulated_returns=nret, n_simulations=nsim)
    env.check(seeds == [5], 'one generator with the given seed')
    env.check(len(normals) == nret * n and len(tris) == nsim * n * (n + 1) // 2, 'number of draws')
    from fractions import Fraction
    t = Fraction(str(th or 0.15)) * 100 * n
    env.eq(got, spec(env, n, p, C, normals, tris, nret, nsim, lambda b: b >= t), 'premium', scale=1e-6)
