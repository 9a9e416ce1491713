"""C17 MES"""
from symx.harness import ob
from props.longspec import mixed, number, ints, spots


def quant(env, xs, q):
    """linear-interpolation quantile of xs"""
    s = sorted_sym(xs)
    pos = q * (len(s) - 1)
    lo = int(pos // 1)
    hi = min(lo + 1, len(s) - 1)
    return s[lo] + (s[hi] - s[lo]) * (pos - lo)


def sorted_sym(xs):
    out = []
    for x in xs:
        i = 0
        while i < len(out) and bool(out[i] <= x): i += 1
        out.insert(i, x)
    return out


def spec(env, f, m, q):
    thr = quant(env, m, q)
    t = [f[i] for i in range(len(m)) if bool(m[i] < thr)]
    return t


QS = (0.05, 0.5, 0.25, 1.0)


@ob('C17', quick=[dict(n=n, q=q) for n in (2, 3) for q in QS] + [dict(n=4, q=0.3), dict(n=4, q=0.75)], thorough=[dict(n=n, q=q) for n in (2, 3, 4) for q in QS + (0.01, 0.1, 0.333, 0.9)] + [dict(n=5, q=0.3)], bounds='n days, any returns (ties included), listed q', max_paths=4000)
def formula(env, n, q):
    f = env.arr('firm', n); m = env.arr('mkt', n)
    M = env.mod('frds.measures').MarginalExpectedShortfall
    t = spec(env, f, m, q)
    if not t: return
    r = M(f, m).estimate(q)
    env.eq(r, sum(t) / len(t), 'mes')


@ob('C17', quick=[dict(n=2), dict(n=3)], bounds='n days, any q in (0,1]', max_paths=4000)
def any_q(env, n):
    f = env.arr('firm', n); m = env.arr('mkt', n); q = env.real('q', lo=0.001, hi=1.0)
    s = sorted_sym([v for v in m])
    pos = q * (n - 1)
    lo = n - 1
    for j in range(n - 1):
        if bool(pos < j + 1): lo = j; break
    hi = min(lo + 1, n - 1)
    thr = s[lo] + (s[hi] - s[lo]) * (pos - lo)
    t = [f[i] for i in range(n) if bool(m[i] < thr)]
    if not t: return
    M = env.mod('frds.measures').MarginalExpectedShortfall
    env.eq(M(f, m).estimate(q), sum(t) / len(t), 'mes')


@ob('C17', quick=[dict(n=3, q=0.4)], thorough=[dict(n=3, q=0.4), dict(n=4, q=0.4)], bounds='n days; neighbour transposition; any scale', max_paths=4000)
def laws(env, n, q):
    f = env.arr('firm', n); m = env.arr('mkt', n); k = env.real('k')
    M = env.mod('frds.measures').MarginalExpectedShortfall
    thr = quant(env, m, q)
    idx = [i for i in range(n) if bool(m[i] < thr)]
    if not idx: return
    r = M(f, m).estimate(q)
    env.eq(M(k * f, m).estimate(q), k * r, 'scale')
    env.eq(M(m, m).estimate(q), sum(m[i] for i in idx) / len(idx), 'market on itself')
    i = env.choose(n - 1, 'swap')
    p = list(range(n)); p[i], p[i + 1] = p[i + 1], p[i]
    env.eq(M(env.asarray([f[j] for j in p]), env.asarray([m[j] for j in p])).estimate(q), r, 'order')
    default = M(f, m)
    lo, hi = default.firm_returns, None
    mx = f[0]; mn = f[0]
    for v in list(f)[1:]:
        mx = env.max(mx, v); mn = env.min(mn, v)
    env.check(r <= mx, 'above every firm return'); env.check(r >= mn, 'below every firm return')


@ob('C17', quick=[dict(n=3)], bounds='default q is 0.05')
def default_q(env, n):
    f = env.arr('firm', n); m = env.arr('mkt', n)
    M = env.mod('frds.measures').MarginalExpectedShortfall
    t = spec(env, f, m, 0.05)
    if not t: return
    env.eq(M(f, m).estimate(), sum(t) / len(t), 'default q')


@ob('C17', quick=[dict(n=250, q=0.05), dict(n=250, q=0.01)], thorough=[dict(n=250, q=0.05), dict(n=250, q=0.01), dict(n=1000, q=0.05)], bounds='250 days (1000 thorough): four firm returns arbitrary, one market return arbitrary around the threshold, the others given numbers', max_paths=600)
def year(env, n, q):
    base = [number(i, 2, -3, 3) for i in range(n)]
    k = n // 2; t = sorted(base[:k] + base[k + 1:]); j = int(q * (n - 1))
    m = list(base); m[k] = env.real('mkt', lo=t[max(j - 2, 0)], hi=t[j + 3])
    at = sorted({0, 1, k} | {i for i in range(n) if i != k and base[i] <= t[1]})
    f = mixed(env, 'firm', n, 1, -5, 5, at=at)
    w = spec(env, f, m, q)
    env.eq(env.mod('frds.measures').MarginalExpectedShortfall(env.asarray(f), env.asarray(m)).estimate(q), sum(w) / len(w), 'mes')
