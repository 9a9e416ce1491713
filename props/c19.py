"""C19 absorption ratio"""
from symx.harness import ob
from props import longspec as L

B = 'arbitrary returns with a positive total variance; the eigenvalues of a covariance matrix are any non-negative numbers that add up to its trace, returned in any order, equal for matrices with the same characteristic polynomial up to scale'


def install(env, N):
    """numpy's eigenvalue routines: eigenvalue shares rho_1 >= ... >= rho_N >= 0 with sum 1, times the trace"""
    tab = []
    o = env.choose(N, 'order of the eigenvalues')

    def key(m):
        t = env.define(sum(m[i][i] for i in range(N)))
        if N > 3: return t, [m[i][j] / t for i in range(N) for j in range(i + 1)]     # the matrix itself
        c2 = sum(m[i][i] * m[j][j] - m[i][j] * m[j][i] for i in range(N) for j in range(i))
        k = [c2 / (t * t)]
        if N == 3:
            det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
            k.append(det / (t * t * t))
        return t, k

    def shares(m):
        m = [[m[i][j] for j in range(N)] for i in range(N)]
        t, k = key(m)
        for k0, r in tab:
            if all(env.is_zero(a - b) for a, b in zip(k, k0)): return t, r
        q = len(tab)
        g = env.vec(f'share{q}_', N - 1, lo=0, hi=0.5)      # gaps between successive shares, all but the first
        r = [sum(g[i:]) for i in range(N - 1)]
        r = [1 - sum(r)] + r
        env.assume(r[0] >= r[1])
        tab.append((k, r))
        return t, r

    def ascending(m, *a, **k):
        t, r = shares(m)
        return env.asarray([t * x for x in reversed(r)])

    def anyorder(m, *a, **k):
        t, r = shares(m)
        return env.asarray([t * x for x in r[o:] + r[:o]])
    for n, f in (('eigvals', anyorder), ('eigvalsh', ascending), ('eig', lambda *a, **k: (anyorder(*a), None)), ('eigh', lambda *a, **k: (ascending(*a), None))): env.patch('numpy.linalg', n, f)
    return shares


def cov(x):
    N, T = len(x), len(x[0])
    m = [sum(r) / T for r in x]
    return [[sum((x[i][t] - m[i]) * (x[j][t] - m[j]) for t in range(T)) / (T - 1) for j in range(N)] for i in range(N)]


def data(env, N, T):
    x = [env.vec(f'r{i}_', T) for i in range(N)]
    env.assume(sum((x[i][t] - x[i][0]) * (x[i][t] - x[i][0]) for i in range(N) for t in range(T)) > 0)
    S = cov(x)
    t = sum(S[i][i] for i in range(N))
    env.assume(t > 0)
    env.define(t)
    return x, S


def run(env, x, f):
    return env.mod('frds.measures').AbsorptionRatio(env.asarray(x)).estimate(*f)


def count(env, f, N):
    """fraction * N rounded half up"""
    for n in range(N):
        if env.is_true(f * N < n + 0.5): return n
    return N


@ob('C19', quick=[dict(N=2, T=3), dict(N=3, T=3), dict(N=2, T=3, deflt=True), dict(N=5, T=2), dict(N=5, T=2, deflt=True)], thorough=[dict(N=2, T=4), dict(N=3, T=4), dict(N=3, T=3, deflt=True), dict(N=5, T=2), dict(N=5, T=3, deflt=True)], bounds='2, 3 or 5 assets, 2 or 3 days (4 thorough), any fraction in [0, 1]: ' + B, max_paths=3000)
def share(env, N, T, deflt=False):
    shares = install(env, N)
    x, S = data(env, N, T)
    f = 0.2 if deflt else env.real('fraction', lo=0, hi=1)
    got = run(env, x, () if deflt else (f,))
    t, r = shares(S)
    n = count(env, f, N)
    env.eq(got, sum(r[:n]) if n else 0.0, 'absorption ratio')
    env.check(got >= -1e-12, 'at least 0'); env.check(got <= 1 + 1e-9, 'at most 1')
    if n == 0: env.eq(got, 0.0, 'no eigenvectors')
    if n == N: env.eq(got, 1.0, 'all eigenvectors')


@ob('C19', quick=[dict(N=2, T=3), dict(N=3, T=3)], bounds='2 or 3 assets, 3 days, any two fractions: ' + B, max_paths=3000)
def monotone(env, N, T):
    install(env, N)
    x, S = data(env, N, T)
    f = env.real('fraction', lo=0, hi=1); d = env.real('more', lo=0, hi=1)
    env.assume(f + d <= 1)
    env.check(run(env, x, (f + d,)) >= run(env, x, (f,)) - 1e-12, 'never decreases in the fraction')


@ob('C19', quick=[dict(N=2, T=3), dict(N=3, T=3)], bounds='2 or 3 assets, 3 days, any fraction; scale factors 2, 1/4, 100; any constants: ' + B, max_paths=3000)
def invariance(env, N, T):
    shares = install(env, N)
    x, S = data(env, N, T)
    shares(S)
    f = env.real('fraction', lo=0, hi=1)
    v = run(env, x, (f,))
    env.eq(run(env, x[1:] + x[:1], (f,)), v, 'asset order')
    env.eq(run(env, [r[1:] + r[:1] for r in x], (f,)), v, 'day order')
    k = [env.real(f'add{i}') for i in range(N)]
    env.eq(run(env, [[v + k[i] for v in x[i]] for i in range(N)], (f,)), v, 'added constants')
    c = (2.0, 0.25, 100.0)[env.choose(3, 'scale')]
    env.eq(run(env, [[v * c for v in r] for r in x], (f,)), v, 'common scaling')


@ob('C19', quick=[dict(N=40), dict(N=40, deflt=True)], thorough=[dict(N=120), dict(N=120, deflt=True)], bounds='40 assets (120 thorough), 3 days: four returns arbitrary, the rest listed numbers; any fraction in [0, 1]; listed eigenvalue shares in a listed order', max_paths=200, time_s=200)
def many_assets(env, N, deflt=False):
    w = [L.number(i, 5, 0.1, 3.0) for i in range(N)]
    r = [v / sum(w) for v in w]
    x = [[env.real(f'r{i}_{t}', lo=-2, hi=2) if i in L.spots(N) and t == i % 3 else L.number(i, t, -2.0, 2.0) for t in range(3)] for i in range(N)]
    t = sum(row[i] for i, row in enumerate(cov(x)))
    def vals(m, *a, **k):
        tr = sum(m[i][i] for i in range(N))
        return env.asarray([tr * v for v in (sorted(r) if k.get('up') else r)])
    for n, f in (('eigvals', vals), ('eigvalsh', lambda *a, **k: vals(*a, up=True)), ('eig', lambda *a, **k: (vals(*a), None)), ('eigh', lambda *a, **k: (vals(*a, up=True), None))): env.patch('numpy.linalg', n, f)
    f = 0.2 if deflt else env.real('fraction', lo=0, hi=1)
    got = run(env, x, () if deflt else (f,))
    n = count(env, f, N)
    env.eq(got, sum(sorted(r, reverse=True)[:n]) if n else 0.0, 'absorption ratio')
