"""C28 price impact"""
from symx.harness import ob
from props.c27 import sample
from props.longspec import ints
from props.c27 import trade, wavg, absv


def imp(env, m, l, d, pct):
    x = 2 * (l - m) / m * 100 if pct else 2 * (env.log(l) - env.log(m))
    return d * x if d is not None else absv(x)


Q = [dict(n=n, pct=p, kind=k, dirs=d) for p in (True, False) for (n, k, d) in [(1, 'array', None), (2, 'array', None), (2, 'list', None), (2, 'array', 'array'), (2, 'array', 'list'), (2, 'list', 'tuple'), (2, 'array', 'series'), (2, 'list', 'ints'), (3, 'array', 'array')]]


@ob('C28', quick=Q, thorough=Q + [dict(n=n, pct=p, kind='array', dirs=d) for n in (3, 4, 5) for p in (True, False) for d in (None, 'array')], bounds='n trades, any positive prices, midpoints and volumes, every direction pattern')
def formula(env, n, pct, kind, dirs):
    price, mid, vol, later, d, dv = trade(env, n, kind, dirs)
    f = env.mod('frds.measures.price_impact').simple_price_impact
    r = f(price, later, mid, vol, d, pct_spread=pct)
    s = [imp(env, mid[i], later[i], dv[i] if dv else None, pct) for i in range(n)]
    env.eq(r, wavg(s, [price[i] * vol[i] for i in range(n)]), 'price impact')


@ob('C28', quick=[dict(n=2, pct=p, dirs=d) for p in (True, False) for d in (None, 'list')], bounds='all volumes zero')
def zero_volume(env, n, pct, dirs):
    price, mid, vol, later, d, dv = trade(env, n, 'array', dirs)
    f = env.mod('frds.measures.price_impact').simple_price_impact
    r = f(price, later, mid, env.asarray([0.0] * n), d, pct_spread=pct)
    s = [imp(env, mid[i], later[i], dv[i] if dv else None, pct) for i in range(n)]
    env.eq(r, sum(s) / n, 'plain average')


@ob('C28', quick=[dict(n=n, pct=p, zero=z, dirs=d) for n in (1, 2, 3) for p in (True, False) for z in (False, True) for d in ('array', 'list')], thorough=[dict(n=n, pct=p, zero=z, dirs=d) for n in (1, 2, 3, 4, 5) for p in (True, False) for z in (False, True) for d in ('array', 'list')],
    bounds='n trades, every direction pattern; with and without volume')
def decomposition(env, n, pct, zero, dirs):
    price, mid, vol, later, d, dv = trade(env, n, 'array', dirs)
    if zero: vol = env.asarray([0.0] * n)
    M = env.mod('frds.measures.spread')
    f = env.mod('frds.measures.price_impact').simple_price_impact
    e = M.effective_spread(price, mid, vol, d, pct_spread=pct)
    r = M.realized_spread(price, later, mid, vol, d, pct_spread=pct)
    i = f(price, later, mid, vol, d, pct_spread=pct)
    env.eq(r + i, e, 'effective = realised + impact', scale=1e-3)


@ob('C28', quick=[dict(n=300, pct=p, dirs=d) for p in (True, False) for d in (False, True)], bounds='300 trades, four of them with arbitrary prices, midpoints and volumes (in disjoint ranges), the others given numbers')
def long_sample(env, n, pct, dirs):
    p, m, l, v, d = sample(env, n, dirs)
    a = env.asarray
    r = env.mod('frds.measures.price_impact').simple_price_impact(a(p), a(l), a(m), a(v), a(d) if dirs else None, pct_spread=pct)
    env.eq(r, wavg([imp(env, m[i], l[i], d[i] if d else None, pct) for i in range(n)], [p[i] * v[i] for i in range(n)]), 'price impact')


@ob('C28', quick=[dict(pct=p, dirs=d, what=k) for p in (True, False) for d in (False, True) for k in ('volume', 'price', 'midpoint')], bounds='three trades with integer-typed volumes, prices or midpoints of fixed value (and integer directions), the other inputs arbitrary')
def integers(env, pct, dirs, what):
    n = 3
    p, m, l, v, d = sample(env, n, dirs, at=range(n))
    a = env.asarray
    P, Mi, L, V = a(p), a(m), a(l), a(v)
    if what == 'volume': V = ints(n, 6, 1, 900); v = [float(x) for x in V]
    if what == 'price': P = ints(n, 7, 10, 11); p = [float(x) for x in P]
    if what == 'midpoint': Mi = ints(n, 8, 12, 14); m = [float(x) for x in Mi]
    dd = ints(n, 0, 1, 1) * [int(x) for x in d] if dirs else None
    r = env.mod('frds.measures.price_impact').simple_price_impact(P, L, Mi, V, dd, pct_spread=pct)
    env.eq(r, wavg([imp(env, m[i], l[i], d[i] if d else None, pct) for i in range(n)], [p[i] * v[i] for i in range(n)]), 'price impact')
