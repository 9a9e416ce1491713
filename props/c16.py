"""C16 SRISK"""
from symx.harness import ob
from props.longspec import mixed, number, ints, spots

K = ('h', 'S', 'C', 'random_seed')


def run(env, n, lr, agg, W, D, fr, mr, **kw):
    M = env.mod('frds.measures'); S = env.mod('frds.measures._srisk')
    calls = []
    class Fake:
        def __init__(self, firm_returns, market_returns): self.f, self.m = firm_returns, market_returns
        def estimate(self, h=22, S=10_000, C=-0.1, random_seed=42):
            calls.append((self.f, self.m, dict(h=h, S=S, C=C, random_seed=random_seed)))
            for i in range(n):
                ref = fr if n == 1 else [fr[t, i] for t in range(len(mr))]
                if all(env.is_true(self.f[t] == ref[t]) for t in range(len(mr))): return lr[i]
            env.fail("LRMES of something other than a firm's returns"); env.unsupported('LRMES')
    M.LongRunMarginalExpectedShortfall = Fake; S.LongRunMarginalExpectedShortfall = Fake
    got = M.SRISK(fr, mr, W, D).estimate(aggregate_srisk=agg, **kw)
    if not calls: env.unsupported('LRMES is not computed by LongRunMarginalExpectedShortfall')
    return got, calls


def returns(env, n, T=3):
    """recognisable returns: the firms' series differ in the first day"""
    mr = env.asarray([0.01, -0.02, 0.015])
    if n == 1: return env.asarray([0.02, -0.01, 0.03]), mr
    return env.asarray([[0.02 + i / 64.0 for i in range(n)], [-0.01] * n, [0.03] * n]), mr


@ob('C16', quick=[dict(n=n, agg=a, deflt=False) for n in (1, 2, 3) for a in (False, True)] + [dict(n=2, agg=False, deflt=True), dict(n=1, agg=True, deflt=True)],
    thorough=[dict(n=n, agg=a, deflt=d) for n in (1, 2, 3, 6) for a in (False, True) for d in (False, True)],
    bounds='1 to 3 firms (6 thorough): equity > 0, debt >= 0, LRMES (also exactly 0), k arbitrary; every sign pattern of the shortfalls; LRMES itself: C15', max_paths=3000)
def srisk(env, n, agg, deflt):
    fr, mr = returns(env, n)
    W = [env.real(f'W{i}', pos=True) for i in range(n)]; D = [env.real(f'D{i}', nonneg=True) for i in range(n)]
    zero = env.choose(2, 'no systemic event')
    lr = [0.0 if zero and i == 0 else env.real(f'lrmes{i}') for i in range(n)]
    kw = {} if deflt else dict(k=env.real('k', lo=0, hi=1), lrmes_h=5, lrmes_S=20, lrmes_C=-0.25, lrmes_random_seed=7)
    w, d = (env.number(W[0]), env.number(D[0])) if n == 1 else (env.asarray(W), env.asarray(D))
    got, calls = run(env, n, lr, agg, w, d, fr, mr, **kw)
    k = 0.08 if deflt else kw['k']
    want = [W[i] * (k * (D[i] + W[i]) / W[i] + (1 - k) * lr[i] - 1) for i in range(n)]
    alt = [k * D[i] - (1 - k) * W[i] * (1 - lr[i]) for i in range(n)]
    if agg:
        tot = 0
        for s in alt: tot = tot + (s if env.is_true(s > 0) else 0.0)
        env.eq(got, tot, 'aggregate SRISK')
    elif n == 1:
        env.eq(got, want[0], 'SRISK'); env.eq(got, alt[0], 'SRISK, second form')
    else:
        env.eq(got, env.asarray(want), 'SRISK'); env.eq(got, env.asarray(alt), 'SRISK, second form')
    a = dict(h=22, S=10000, C=-0.1, random_seed=42) if deflt else dict(h=5, S=20, C=-0.25, random_seed=7)
    env.check(len(calls) >= n, 'LRMES of every firm')
    for f, m, c in calls:
        env.eq(m, mr, 'market returns')
        env.eq(env.asarray([c[q] for q in K]), env.asarray([a[q] for q in K]), 'LRMES settings')


@ob('C16', quick=[dict(agg=a, neg=n) for a in (False, True) for n in (False, True)], bounds='one firm, no systemic event (LRMES exactly 0): equity and debt given as plain numbers (a type-level case: no array is involved)')
def no_event(env, agg, neg):
    fr, mr = returns(env, 1)
    W, D = (900.0, 100.0) if neg else (100.0, 2000.0)
    got, calls = run(env, 1, [0.0], agg, W, D, fr, mr)
    s = 0.08 * D - 0.92 * W
    env.eq(got, max(s, 0.0) if agg else s, 'SRISK')


@ob('C16', quick=[dict(n=15, agg=a) for a in (False, True)], bounds='15 firms: equity, debt and LRMES of three firms arbitrary, the others given; any k', max_paths=600)
def many_firms(env, n, agg):
    mr = env.asarray([0.01, -0.02, 0.015])
    fr = env.asarray([[0.02 + i / 64.0 for i in range(n)], [-0.01] * n, [0.03] * n])
    at = (0, 7, n - 1)
    W = mixed(env, 'W', n, 1, 1, 100, at=at, pos=True); D = mixed(env, 'D', n, 2, 1, 2000, at=at, nonneg=True); lr = mixed(env, 'lrmes', n, 3, -.2, .9, at=at)
    k = env.real('k', lo=.08, hi=.0801) if agg else env.real('k', lo=0, hi=1)
    got, calls = run(env, n, lr, agg, env.asarray(W), env.asarray(D), fr, mr, k=k)
    alt = [k * D[i] - (1 - k) * W[i] * (1 - lr[i]) for i in range(n)]
    if agg:
        tot = 0
        for s in alt: tot = tot + (s if env.is_true(s > 0) else 0.0)
        env.eq(got, tot, 'aggregate SRISK')
    else: env.eq(got, env.asarray(alt), 'SRISK')


@ob('C16', quick=[dict(agg=a) for a in (False, True)], bounds='two firms with integer-typed equity and debt, arbitrary LRMES and k', max_paths=600)
def integers(env, agg):
    n = 2
    fr, mr = returns(env, n)
    W, D = ints(n, 1, 50, 100), ints(n, 2, 500, 900)
    lr = env.vec('lrmes', n); k = env.real('k', lo=0, hi=1)
    got, calls = run(env, n, lr, agg, W, D, fr, mr, k=k)
    alt = [k * float(D[i]) - (1 - k) * float(W[i]) * (1 - lr[i]) for i in range(n)]
    if agg:
        tot = 0
        for s in alt: tot = tot + (s if env.is_true(s > 0) else 0.0)
        env.eq(got, tot, 'aggregate SRISK')
    else: env.eq(got, env.asarray(alt), 'SRISK')
