"""C22 Kyle's lambda"""
from symx.harness import ob
from props.longspec import mixed, number, ints, spots


def spec(y, x):
    n = len(y)
    return 1000000 * sum(x[i] * y[i] for i in range(n)) / sum(x[i] * x[i] for i in range(n))


@ob('C22', quick=[dict(n=n, kind=k) for n in (1, 2, 3, 5) for k in ('array', 'list')], thorough=[dict(n=n, kind=k) for n in (1, 2, 3, 5, 8, 12) for k in ('array', 'list', 'series', 'tuple')],
    bounds='n observations, any real returns and volumes with a non-zero volume')
def slope(env, n, kind):
    y = env.arr('y', n, kind); x = env.arr('x', n, kind)
    yy = [v for v in y]; xx = [v for v in x]
    env.assume(sum(v * v for v in xx) > 0)
    m = env.mod('frds.measures')
    r = m.kyle_lambda(y, x)
    env.eq(r, spec(yy, xx), 'lambda')


@ob('C22', quick=[dict(n=3), dict(n=4)], bounds='n observations; any permutation = any transposition of neighbours; k, c arbitrary')
def laws(env, n):
    y = env.arr('y', n); x = env.arr('x', n)
    env.assume(sum(v * v for v in x) > 0)
    k = env.real('k'); c = env.real('c', pos=True)
    f = env.mod('frds.measures').kyle_lambda
    r = f(y, x)
    env.eq(f(k * y, x), k * r, 'scales with returns')
    env.eq(f(y, c * x), r / c, 'inverse in volume')
    env.eq(f(k * x, x), 1000000 * k, 'exact recovery')
    i = env.choose(n - 1, 'swap')
    p = list(range(n)); p[i], p[i + 1] = p[i + 1], p[i]
    env.eq(f(env.asarray([y[j] for j in p]), env.asarray([x[j] for j in p])), r, 'order')


@ob('C22', quick=[dict(n=300)], thorough=[dict(n=300), dict(n=2000)], bounds='300 observations (2000 thorough), four of them arbitrary, the others given numbers')
def long_sample(env, n):
    y = mixed(env, 'y', n, 1, -1, 1); x = mixed(env, 'x', n, 2, -3, 3)
    env.eq(env.mod('frds.measures').kyle_lambda(env.asarray(y), env.asarray(x)), spec(y, x), 'lambda')


@ob('C22', quick=[dict(n=4, what=w) for w in ('volume', 'returns')], bounds='four integer-typed volumes (or returns) of fixed value, the other series arbitrary')
def integers(env, n, what):
    k = ints(n, 3, -500, 500); v = env.arr('v', n)
    if what == 'returns': env.assume(sum(a * a for a in v) > 0)
    y, x = (v, k) if what == 'volume' else (k, v)
    env.eq(env.mod('frds.measures').kyle_lambda(y, x), spec([a for a in y], [a for a in x]), 'lambda')
