"""C27 spreads"""
from symx.harness import ob
from props.longspec import mixed, number, ints, spots

K = ('array', 'list', 'series')


def wavg(s, w):
    return sum(a * b for a, b in zip(s, w)) / sum(w)


def absv(x):
    return abs(x)


@ob('C27', quick=[dict(n=n, pct=p, kind=k) for n in (1, 3) for p in (True, False) for k in ('array', 'list')], thorough=[dict(n=n, pct=p, kind=k) for n in (1, 2, 3, 6) for p in (True, False) for k in K],
    bounds='n quotes, any positive bids and asks')
def quoted(env, n, pct, kind):
    b = env.arr('bid', n, kind, pos=True); a = env.arr('ask', n, kind, pos=True)
    f = env.mod('frds.measures.spread').quoted_spread
    r = f(b, a, pct_spread=pct)
    s = [(y - x) / ((x + y) / 2) * 100 if pct else env.log(y) - env.log(x) for x, y in zip(b, a)]
    env.eq(r, sum(s) / n, 'quoted spread')
    if pct: env.eq(f(b, a), r, 'default is percentage')


def trade(env, n, kind, dirs):
    price = env.arr('price', n, kind, pos=True); mid = env.arr('mid', n, kind, pos=True); vol = env.arr('vol', n, kind, pos=True)
    later = env.arr('later', n, kind, pos=True)
    d = None
    if dirs:
        v = [1.0 if env.choose(2, 'dir') == 0 else -1.0 for _ in range(n)]
        d = v if dirs == 'list' else tuple(v) if dirs == 'tuple' else env.series(env.asarray(v)) if dirs == 'series' else env.asarray(v) if dirs == 'array' else [int(x) for x in v]
    return price, mid, vol, later, d, (v if dirs else None)


def one(env, p, m, ref, d, pct):
    if pct: x = 2 * (p - ref) / m * 100
    else: x = 2 * (env.log(p) - env.log(ref))
    return d * x if d is not None else absv(x)


QD = [dict(n=n, pct=p, kind=k, dirs=d, which=w) for w in ('effective', 'realized') for p in (True, False) for (n, k, d) in
      [(1, 'array', None), (2, 'array', None), (2, 'list', None), (2, 'array', 'array'), (2, 'array', 'list'), (2, 'list', 'tuple'), (2, 'array', 'series'), (2, 'array', 'ints'), (3, 'array', 'array')]]
TD = QD + [dict(n=n, pct=p, kind=k, dirs=d, which=w) for w in ('effective', 'realized') for p in (True, False) for (n, k, d) in [(3, 'array', None), (4, 'array', 'list'), (4, 'array', None), (3, 'series', 'series')]]


@ob('C27', quick=QD, thorough=TD, bounds='n trades, any positive prices, midpoints and volumes, every direction pattern of +-1')
def traded(env, n, pct, kind, dirs, which):
    price, mid, vol, later, d, dv = trade(env, n, kind, dirs)
    M = env.mod('frds.measures.spread')
    if which == 'effective':
        r = M.effective_spread(price, mid, vol, d, pct_spread=pct); ref = mid
    else:
        r = M.realized_spread(price, later, mid, vol, d, pct_spread=pct); ref = later
    s = [one(env, price[i], mid[i], ref[i], dv[i] if dv else None, pct) for i in range(n)]
    w = [price[i] * vol[i] for i in range(n)]
    env.eq(r, wavg(s, w), which + ' spread')


@ob('C27', quick=[dict(n=2, pct=p, dirs=d, which=w) for p in (True, False) for d in (None, 'list') for w in ('effective', 'realized')], bounds='n trades with all volumes zero')
def zero_volume(env, n, pct, dirs, which):
    price, mid, vol, later, d, dv = trade(env, n, 'array', dirs)
    vol = env.asarray([0.0] * n)
    M = env.mod('frds.measures.spread')
    if which == 'effective':
        r = M.effective_spread(price, mid, vol, d, pct_spread=pct); ref = mid
    else:
        r = M.realized_spread(price, later, mid, vol, d, pct_spread=pct); ref = later
    s = [one(env, price[i], mid[i], ref[i], dv[i] if dv else None, pct) for i in range(n)]
    env.eq(r, sum(s) / n, 'plain average')


@ob('C27', quick=[dict(n=2, zero=z, which=w) for z in (0, 1) for w in ('effective', 'realized')], bounds='some but not all volumes zero')
def some_zero_volume(env, n, zero, which):
    price, mid, vol, later, d, dv = trade(env, n, 'array', 'array')
    vol = env.asarray([0.0 if i == zero else vol[i] for i in range(n)])
    M = env.mod('frds.measures.spread')
    if which == 'effective': r = M.effective_spread(price, mid, vol, d); ref = mid
    else: r = M.realized_spread(price, later, mid, vol, d); ref = later
    j = 1 - zero
    env.eq(r, one(env, price[j], mid[j], ref[j], dv[j], True), 'the traded quote decides')


@ob('C27', quick=[dict(n=2, pct=p, which=w) for p in (True, False) for w in ('effective', 'realized')], bounds='n trades; scale factors arbitrary positive; neighbour transposition')
def laws(env, n, pct, which):
    price, mid, vol, later, d, dv = trade(env, n, 'array', 'array')
    c = env.real('c', pos=True); k = env.real('k', pos=True)
    M = env.mod('frds.measures.spread')
    if which == 'effective': f = lambda P, L, m, V, D: M.effective_spread(P, m, V, D, pct_spread=pct)
    else: f = lambda P, L, m, V, D: M.realized_spread(P, L, m, V, D, pct_spread=pct)
    r = f(price, later, mid, vol, d)
    env.eq(f(price * c, later * c, mid * c, vol, d), r, 'price scale')
    env.eq(f(price, later, mid, vol * k, d), r, 'volume scale')
    rev = lambda a: env.asarray([a[1], a[0]] + [a[i] for i in range(2, n)])
    env.eq(f(rev(price), rev(later), rev(mid), rev(vol), rev(d)), r, 'order')


@ob('C27', quick=[dict(which=w) for w in ('effective', 'realized', 'quoted')], bounds='two trades; the average lies between the individual spreads', check_timeout=20000)
def between(env, which):
    price, mid, vol, later, d, dv = trade(env, 2, 'array', 'array')
    M = env.mod('frds.measures.spread')
    if which == 'quoted':
        r = M.quoted_spread(mid, later); one_ = [M.quoted_spread(env.asarray([mid[i]]), env.asarray([later[i]])) for i in range(2)]
    elif which == 'effective':
        r = M.effective_spread(price, mid, vol, d); one_ = [one(env, price[i], mid[i], mid[i], dv[i], True) for i in range(2)]
    else:
        r = M.realized_spread(price, later, mid, vol, d); one_ = [one(env, price[i], mid[i], later[i], dv[i], True) for i in range(2)]
    # r = t*a + (1-t)*b with 0 <= t <= 1, hence between a and b
    a, b = one_
    t = 0.5 if which == 'quoted' else price[0] * vol[0] / (price[0] * vol[0] + price[1] * vol[1])
    env.eq(r, t * a + (1 - t) * b, 'convex combination')
    if which != 'quoted':
        env.check(t >= 0, 'weight'); env.check(1 - t >= 0, 'weight')


def sample(env, n, dirs, at=None):
    """prices, midpoints, later midpoints, volumes and directions; no difference of unknown sign"""
    at = spots(n) if at is None else at
    p = mixed(env, 'price', n, 1, 10, 11, at=at); m = mixed(env, 'mid', n, 2, 11.5, 12, at=at); l = mixed(env, 'later', n, 3, 8, 9.5, at=at)
    d = [1.0 if number(i, 5, 0, 1) < .5 else -1.0 for i in range(n)] if dirs else None
    return p, m, l, mixed(env, 'vol', n, 4, 0.5, 9, at=at), d


@ob('C27', quick=[dict(n=300, pct=p, dirs=d, which=w) for p in (True, False) for d in (False, True) for w in ('effective', 'realized')], bounds='300 trades, four of them with arbitrary prices, midpoints and volumes (in disjoint ranges), the others given numbers')
def long_sample(env, n, pct, dirs, which):
    p, m, l, v, d = sample(env, n, dirs)
    a = env.asarray
    M = env.mod('frds.measures.spread')
    dd = a(d) if dirs else None
    r = M.effective_spread(a(p), a(m), a(v), dd, pct_spread=pct) if which == 'effective' else M.realized_spread(a(p), a(l), a(m), a(v), dd, pct_spread=pct)
    s = [one(env, p[i], m[i], m[i] if which == 'effective' else l[i], d[i] if d else None, pct) for i in range(n)]
    env.eq(r, wavg(s, [p[i] * v[i] for i in range(n)]), which)


@ob('C27', quick=[dict(n=300, pct=p) for p in (True, False)], bounds='300 quotes, four of them arbitrary')
def long_quotes(env, n, pct):
    b = mixed(env, 'bid', n, 1, 10, 11); a = mixed(env, 'ask', n, 2, 10.5, 12)
    s = [(y - x) / ((x + y) / 2) * 100 if pct else env.log(y) - env.log(x) for x, y in zip(b, a)]
    env.eq(env.mod('frds.measures.spread').quoted_spread(env.asarray(b), env.asarray(a), pct_spread=pct), sum(s) / n, 'quoted spread')


@ob('C27', quick=[dict(pct=p, dirs=d, which=w, what=k) for p in (True, False) for d in (False, True) for w in ('effective', 'realized') for k in ('volume', 'price', 'midpoint')], bounds='three trades with integer-typed volumes, prices or midpoints of fixed value (and integer directions), the other inputs arbitrary')
def integers(env, pct, dirs, which, what):
    n = 3
    p, m, l, v, d = sample(env, n, dirs, at=range(n))
    a = env.asarray
    P, Mi, L, V = a(p), a(m), a(l), a(v)
    if what == 'volume': V = ints(n, 6, 1, 900); v = [float(x) for x in V]
    if what == 'price': P = ints(n, 7, 10, 11); p = [float(x) for x in P]
    if what == 'midpoint': Mi = ints(n, 8, 12, 14); m = [float(x) for x in Mi]
    M = env.mod('frds.measures.spread')
    dd = ints(n, 0, 1, 1) * [int(x) for x in d] if dirs else None
    r = M.effective_spread(P, Mi, V, dd, pct_spread=pct) if which == 'effective' else M.realized_spread(P, L, Mi, V, dd, pct_spread=pct)
    s = [one(env, p[i], m[i], m[i] if which == 'effective' else l[i], d[i] if d else None, pct) for i in range(n)]
    env.eq(r, wavg(s, [p[i] * v[i] for i in range(n)]), which)
