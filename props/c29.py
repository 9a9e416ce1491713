"""C29 order book slopes"""
from symx.harness import ob
from props.longspec import mixed, number, ints, spots
NAN = float('nan')


def book(env, n, k, nan=True):
    """bids below, asks above a midpoint, levels ordered; optionally one quote has a missing cell"""
    mid = env.arr('mid', n, lo=10.0, hi=11.0)
    bs = env.arr('bs', (n, k), pos=True); as_ = env.arr('as', (n, k), pos=True)
    step_b = env.arr('db', (n, k), lo=0.01, hi=1.0); step_a = env.arr('da', (n, k), lo=0.01, hi=1.0)
    bp, ap = [], []
    for i in range(n):
        b = mid[i]; a = mid[i]; rb, ra = [], []
        for j in range(k):
            b = b - step_b[i][j]; a = a + step_a[i][j]
            rb.append(b); ra.append(a)
        bp.append(rb); ap.append(ra)
    return mid, bs, as_, bp, ap


def mean_over(vals, skip):
    v = [x for i, x in enumerate(vals) if i not in skip]
    return sum(v) / len(v) if v else NAN


CASES = [dict(n=n, k=k, nan=m) for n, k, m in [(1, 2, None), (2, 5, None), (3, 2, None), (2, 5, 'size'), (3, 3, 'price'), (2, 3, 'mid')]]


@ob('C29', quick=CASES, thorough=CASES + [dict(n=4, k=5, nan=m) for m in (None, 'size', 'price')], bounds='n quotes with k levels, ordered positive prices and sizes; optionally one missing value in any quote')
def slopes(env, n, k, nan):
    mid, bs, as_, bp, ap = book(env, n, k)
    skip = set()
    bt = [bp[i][k - 1] for i in range(n)]; at = [ap[i][k - 1] for i in range(n)]
    S = [[bs[i][j] for j in range(k)] for i in range(n)]; A = [[as_[i][j] for j in range(k)] for i in range(n)]
    m = [mid[i] for i in range(n)]
    if nan:
        q = env.choose(n, 'quote'); skip = {q}
        if nan == 'size':
            j = env.choose(k, 'level'); S[q][j] = NAN; A[q][j] = NAN
        elif nan == 'price': bt[q] = NAN; at[q] = NAN
        else: m[q] = NAN
    M = env.mod('frds.measures.lob_slope')
    rb = M.DGGW_bid_slope(env.asarray(S), env.asarray(bt), env.asarray(m))
    ra = M.DGGW_ask_slope(env.asarray(A), env.asarray(at), env.asarray(m))
    env.eq(rb, mean_over([sum(S[i]) / (m[i] - bt[i]) for i in range(n)], skip), 'bid slope')
    env.eq(ra, mean_over([sum(A[i]) / (at[i] - m[i]) for i in range(n)], skip), 'ask slope')


C2 = [dict(n=n, k=k, nan=m) for n, k, m in [(1, 5, None), (2, 5, None), (2, 6, None), (2, 5, 'size'), (3, 5, 'price')]]


@ob('C29', quick=C2, thorough=C2 + [dict(n=4, k=5, nan=None), dict(n=3, k=10, nan='size')], bounds='n quotes with k >= 5 levels')
def slope_difference(env, n, k, nan):
    mid, bs, as_, bp, ap = book(env, n, k)
    skip = set()
    data = {}
    for side, sz, pr in (('bid', bs, bp), ('ask', as_, ap)):
        data[side] = ([[sz[i][j] for j in range(k)] for i in range(n)], [list(r) for r in pr])
    if nan:
        q = env.choose(n, 'quote'); skip = {q}
        j = (0, 2, 4)[env.choose(3, 'level')]
        for side in data: data[side][0 if nan == 'size' else 1][q][j] = NAN
    M = env.mod('frds.measures.lob_slope')
    for side, f in (('bid', M.DGGW_bid_side_slope_difference), ('ask', M.DGGW_ask_side_slope_difference)):
        sz, pr = data[side]
        sg = 1 if side == 'ask' else -1
        want = [(sz[i][4] - sz[i][2]) / (sg * (pr[i][4] - pr[i][2])) - (sz[i][2] - sz[i][0]) / (sg * (pr[i][2] - pr[i][0])) for i in range(n)]
        env.eq(f(env.asarray(sz), env.asarray(pr)), mean_over(want, skip), side + ' slope difference')


C3 = [dict(n=n, k=k, nan=m) for n, k, m in [(1, 1, None), (2, 2, None), (3, 5, None), (3, 2, 'size')]]


@ob('C29', quick=C3, thorough=C3 + [dict(n=4, k=5, nan='size')], bounds='n quotes with k levels, positive sizes')
def depth_difference(env, n, k, nan):
    bs = env.arr('bs', (n, k), pos=True); as_ = env.arr('as', (n, k), pos=True)
    B = [[bs[i][j] for j in range(k)] for i in range(n)]; A = [[as_[i][j] for j in range(k)] for i in range(n)]
    skip = set()
    if nan:
        q = env.choose(n, 'quote'); skip = {q}
        side = env.choose(2, 'side')
        (B if side else A)[q][env.choose(k, 'level')] = NAN
    f = env.mod('frds.measures.lob_slope').DGGW_scaled_depth_difference
    r = f(env.asarray(B), env.asarray(A))
    want = [2 * (sum(A[i]) - sum(B[i])) / (sum(A[i]) + sum(B[i])) for i in range(n)]
    env.eq(r, mean_over(want, skip), 'scaled depth difference')
    r2 = f(env.asarray(A), env.asarray(B))
    env.eq(r2, -r, 'antisymmetric', scale=1e-3)
    if n == 1:
        env.check(r <= 2, 'at most 2'); env.check(r >= -2, 'at least -2')


@ob('C29', quick=[dict(n=200, k=10)], bounds='200 quotes with 10 levels, four quotes arbitrary, the others given numbers')
def long_book(env, n, k):
    at = spots(n)
    col = lambda name, c, lo, hi: mixed(env, name, n, c, lo, hi, at=at)
    mid = col('mid', 1, 10, 11)
    bs = [col(f'bs{j}', 10 + j, 1, 9) for j in range(k)]; as_ = [col(f'as{j}', 30 + j, 1, 9) for j in range(k)]
    bp = [[9 - j - number(i, 50 + j, 0, .9) for j in range(k)] for i in range(n)]
    ap = [[12 + j + number(i, 70 + j, 0, .9) for j in range(k)] for i in range(n)]
    S = [[bs[j][i] for j in range(k)] for i in range(n)]; A = [[as_[j][i] for j in range(k)] for i in range(n)]
    M = env.mod('frds.measures.lob_slope'); a = env.asarray
    env.eq(M.DGGW_bid_slope(a(S), a([r[-1] for r in bp]), a(mid)), sum(sum(S[i]) / (mid[i] - bp[i][-1]) for i in range(n)) / n, 'bid slope')
    env.eq(M.DGGW_ask_slope(a(A), a([r[-1] for r in ap]), a(mid)), sum(sum(A[i]) / (ap[i][-1] - mid[i]) for i in range(n)) / n, 'ask slope')
    diff = lambda z, p: sum((z[i][4] - z[i][2]) / abs(p[i][4] - p[i][2]) - (z[i][2] - z[i][0]) / abs(p[i][2] - p[i][0]) for i in range(n)) / n
    env.eq(M.DGGW_bid_side_slope_difference(a(S), a(bp)), diff(S, bp), 'bid slope difference')
    env.eq(M.DGGW_ask_side_slope_difference(a(A), a(ap)), diff(A, ap), 'ask slope difference')
    env.eq(M.DGGW_scaled_depth_difference(a(S), a(A)), sum(2 * (sum(A[i]) - sum(S[i])) / (sum(A[i]) + sum(S[i])) for i in range(n)) / n, 'depth difference')


@ob('C29', quick=[dict(n=3, k=5, nan=m) for m in (False, True)], bounds='three quotes with integer-typed sizes of fixed value, arbitrary midpoints, one possibly missing')
def integers(env, n, k, nan):
    mid = env.vec('mid', n, lo=10, hi=11)
    S, A = ints(n * k, 1, 1, 90).reshape(n, k), ints(n * k, 2, 1, 90).reshape(n, k)
    skip = {env.choose(n, 'quote')} if nan else set()
    m = [NAN if i in skip else mid[i] for i in range(n)]
    bt, at = [9.0 - i for i in range(n)], [12.0 + i for i in range(n)]
    M = env.mod('frds.measures.lob_slope'); a = env.asarray
    env.eq(M.DGGW_bid_slope(S, a(bt), a(m)), mean_over([float(sum(S[i])) / (m[i] - bt[i]) for i in range(n)], skip), 'bid slope')
    env.eq(M.DGGW_ask_slope(A, a(at), a(m)), mean_over([float(sum(A[i])) / (at[i] - m[i]) for i in range(n)], skip), 'ask slope')
    x = env.vec('x', n, lo=.01, hi=1)
    p = [[9.0 - j - j * j * x[i] for j in range(k)] for i in range(n)]
    f = lambda z: sum((float(z[i][4]) - float(z[i][2])) / (p[i][2] - p[i][4]) - (float(z[i][2]) - float(z[i][0])) / (p[i][0] - p[i][2]) for i in range(n)) / n
    env.eq(M.DGGW_bid_side_slope_difference(S, a(p)), f(S), 'slope difference')
    env.eq(M.DGGW_scaled_depth_difference(S, A), sum(2 * float(sum(A[i]) - sum(S[i])) / float(sum(A[i]) + sum(S[i])) for i in range(n)) / n, 'depth difference')
