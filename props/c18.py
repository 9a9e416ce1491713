"""C18 fitted SES"""
from symx.harness import ob
from props.longspec import mixed, number, ints, spots
from props import garchspec as G

B = 'arbitrary training samples with mean-adjusted MES and leverage not collinear, arbitrary firm MES and leverage, b + c not zero'


def sample(env, n):
    m, l, s = env.vec('mes', n), env.vec('lvg', n), env.vec('ses', n)
    f, g = env.real('mes_firm'), env.real('lvg_firm')
    def dev(x):
        k = G.mean(x)
        return [v - k for v in x]
    dm, dl, ds = dev(m), dev(l), dev(s)
    dot = lambda x, y: sum(a * b for a, b in zip(x, y))
    D = env.define
    mm, ll, ml, ms, ls = dot(dm, dm), dot(dl, dl), dot(dm, dl), dot(dm, ds), dot(dl, ds)
    det = mm * ll - ml * ml
    env.assume(det > 0)
    b, c = ll * ms - ml * ls, mm * ls - ml * ms          # times det
    env.assume((b + c) * (b + c) > 0)
    return m, l, s, f, g, b, c


def run(env, m, l, s, f, g):
    return env.mod('frds.measures').SystemicExpectedShortfall(env.asarray(m), env.asarray(l), env.asarray(s), f, g).estimate()


@ob('C18', quick=[dict(n=3)], thorough=[dict(n=3), dict(n=4)], bounds='3 firms (4 thorough): ' + B)
def fitted(env, n):
    m, l, s, f, g, b, c = sample(env, n)
    env.eq(run(env, m, l, s, f, g), (b * f + c * g) / (b + c), 'fitted SES')


@ob('C18', quick=[dict(n=3)], thorough=[dict(n=3), dict(n=4)], bounds='3 firms (4 thorough): ' + B)
def invariance(env, n):
    m, l, s, f, g, b, c = sample(env, n)
    v = run(env, m, l, s, f, g)
    rot = lambda x: list(x[1:]) + [x[0]]
    env.eq(run(env, rot(m), rot(l), rot(s), f, g), v, 'order of the firms')
    k = env.real('shift')
    env.eq(run(env, m, l, [x + k for x in s], f, g), v, 'constant added to realised SES')
    q = env.real('scale', pos=True)
    env.eq(run(env, m, l, [x * q for x in s], f, g), v, 'realised SES scaled')
    env.eq(run(env, m, l, [x * -2.0 for x in s], f, g), v, 'realised SES scaled by a negative number')


@ob('C18', quick=[dict(n=40)], thorough=[dict(n=40), dict(n=200)], bounds='40 firms (200 thorough): realised SES of four firms and the current MES and leverage arbitrary, the rest given numbers')
def many_firms(env, n):
    m, l = [number(i, 1, 0, .1) for i in range(n)], [number(i, 2, 1, 30) for i in range(n)]
    s = mixed(env, 'ses', n, 3, -1, 1)
    f, g = env.real('mes_firm'), env.real('lvg_firm')
    km, kl = sum(m) / n, sum(l) / n
    dm, dl = [v - km for v in m], [v - kl for v in l]
    dot = lambda x, y: sum(a * b for a, b in zip(x, y))
    mm, ll, ml, ms, ls = dot(dm, dm), dot(dl, dl), dot(dm, dl), dot(dm, s), dot(dl, s)
    b, c = ll * ms - ml * ls, mm * ls - ml * ms
    env.assume((b + c) * (b + c) > 1e-4)
    env.eq(run(env, m, l, s, f, g), (b * f + c * g) / (b + c), 'fitted SES', tol=1e-6)


@ob('C18', quick=[dict(n=8, mu=m, lu=l) for m, l in ((0.001, 20.0), (1e-5, 1.0), (10.0, 0.01), (1e-4, 50.0))], thorough=[dict(n=n, mu=m, lu=l) for n in (8, 60) for m in (1e-4, 1e-3, 1.0, 100.0) for l in (0.01, 50.0)],
    bounds='8 firms (60 thorough), MES and leverage listed numbers in listed units between 1e-5 and 50; realised SES any exact combination of a constant, MES and leverage with a positive MES slope; the current MES and leverage arbitrary')
def units(env, n, mu, lu):
    m, l = [number(i, 1, 0.2, 2) for i in range(n)], [number(i, 2, 0.1, 2) for i in range(n)]
    k, b, c = env.real('const', lo=-2, hi=2), env.real('b', lo=0.5, hi=2), env.real('c', lo=0, hi=2)
    f, g = env.real('mes_firm', lo=-3, hi=3), env.real('lvg_firm', lo=0, hi=3)
    got = run(env, [mu * v for v in m], [lu * v for v in l], [k + b * x + c * y for x, y in zip(m, l)], mu * f, lu * g)
    env.eq(got / mu, (b * f + c * g) / (b + c * (mu / lu)), 'fitted SES', tol=1e-6)
