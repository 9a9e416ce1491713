"""C26 Z-score"""
from symx.harness import ob
from props.longspec import mixed, number, ints, spots


@ob('C26', quick=[dict(n=n, kind=k) for n in (2, 3, 5) for k in ('array', 'list')], thorough=[dict(n=n, kind=k) for n in (2, 3, 4, 5, 8) for k in ('array', 'list', 'tuple', 'series')], bounds='n past ROAs, all values, non-constant')
def formula(env, n, kind):
    roa = env.real('roa'); cap = env.real('cap')
    past = env.arr('past', n, kind)
    p = list(past)
    m = sum(p) / n
    var = sum((v - m) * (v - m) for v in p) / n
    env.assume(var > 1e-6)
    z = env.mod('frds.measures').z_score
    env.eq(z(roa, cap, past), (roa + cap) / env.sqrt(var), 'z score')


@ob('C26', quick=[dict(n=3), dict(n=4)], bounds='n past ROAs; neighbour transpositions generate all orders')
def laws(env, n):
    roa = env.real('roa'); cap = env.real('cap'); c = env.real('c'); k = env.real('k', pos=True)
    past = env.arr('past', n)
    p = list(past)
    m = sum(p) / n
    env.assume(sum((v - m) * (v - m) for v in p) / n > 1e-6)
    f = env.mod('frds.measures').z_score
    r = f(roa, cap, past)
    env.eq(f(roa, cap, past + c), r, 'shift')
    env.eq(f(roa, cap, past * k), r / k, 'dispersion')
    i = env.choose(n - 1, 'swap')
    o = list(range(n)); o[i], o[i + 1] = o[i + 1], o[i]
    env.eq(f(roa, cap, env.asarray([p[j] for j in o])), r, 'order')


@ob('C26', quick=[dict(n=120, kind=k) for k in ('array', 'list')], thorough=[dict(n=n, kind=k) for n in (120, 1000) for k in ('array', 'list')], bounds='120 past ROAs (1000 thorough), four of them arbitrary in [-5, 5], the others given numbers')
def long_history(env, n, kind):
    roa, cap = env.real('roa'), env.real('cap')
    p = mixed(env, 'past', n, 1, -5, 5)
    m = sum(p) / n
    var = sum((v - m) * (v - m) for v in p) / n
    env.assume(var > 1e-6)
    env.eq(env.mod('frds.measures').z_score(roa, cap, env.asarray(p) if kind == 'array' else list(p)), (roa + cap) / env.sqrt(var), 'z score')


@ob('C26', quick=[dict(kind=k) for k in ('int64', 'list')], bounds='integer past ROAs')
def integers(env, kind):
    k = ints(5, 2, -9, 9)
    roa, cap = env.real('roa'), env.real('cap')
    p = [float(v) for v in k]; m = sum(p) / 5
    env.eq(env.mod('frds.measures').z_score(roa, cap, k if kind == 'int64' else [int(v) for v in k]), (roa + cap) / env.sqrt(sum((v - m) ** 2 for v in p) / 5), 'z score')
