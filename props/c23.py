"""C23 PIN likelihoods"""
from symx.harness import ob
from props import longspec as L

PAR = 'alpha, delta in [0.01, 0.99], arrival rates in [0.5, 20]'


def pin(env, B, S):
    return env.mod('frds.measures').PIN(B, S)


def params(env):
    a, d = env.real('alpha', lo=0.01, hi=0.99), env.real('delta', lo=0.01, hi=0.99)
    eb, es, mu = (env.real(n, lo=0.5, hi=20) for n in ('eB', 'eS', 'mu'))
    return a, d, eb, es, mu


def power(env, x, k):
    if not isinstance(k, (int, float)): return env.exp(k * env.log(x))
    return x ** k


def mixture(env, par, b, s):
    """density of one day, without 1/(B! S!)"""
    a, d, eb, es, mu = par

    def pois2(rb, rs): return env.exp(-rb - rs) * power(env, rb, b) * power(env, rs, s)
    return (1 - a) * pois2(eb, es) + a * d * pois2(eb, es + mu) + a * (1 - d) * pois2(eb + mu, es)


def counts(env, T, kind):
    if kind == 'real':
        b = [env.real(f'buys{i}', lo=0, hi=12) for i in range(T)]
        s = [env.real(f'sells{i}', lo=0, hi=12) for i in range(T)]
        return b, s, env.asarray(b), env.asarray(s)
    import numpy as np
    b, s = kind
    return list(b), list(s), np.array(b), np.array(s)


Q = [dict(f=f, T=T, kind='real') for f in ('EHO2010', 'LK2011') for T in (1, 2)] + [dict(f=f, T=len(k[0]), kind=k) for f in ('EHO2010', 'LK2011') for k in (((3, 0, 2), (1, 4, 2)), ((0,), (0,)), ((3, 4), (3, 0)))]


@ob('C23', quick=Q, thorough=[dict(f=f, T=T, kind='real') for f in ('EHO2010', 'LK2011') for T in (1, 2, 3)] + Q[4:] + [dict(f=f, T=4, kind=((0, 3, 3, 1), (2, 2, 3, 0))) for f in ('EHO2010', 'LK2011')],
    bounds=f'1 or 2 days (3 thorough) with any real counts in [0, 12]; 1-3 days (4 thorough) with listed integer counts; {PAR}', max_paths=4000, time_s=300)
def likelihood(env, f, T, kind):
    par = params(env)
    b, s, B, S = counts(env, T, kind)
    got = getattr(pin(env, B, S), 'loglikelihood_' + f)(env.asarray(list(par)))
    want = 1.0
    for i in range(T): want = want * mixture(env, par, b[i], s[i])
    up = T * (par[2] + par[3] + par[4])      # keeps the compared numbers away from zero
    env.eq(env.exp(up - got), env.exp(up) * want, 'likelihood')


@ob('C23', quick=[dict(T=1), dict(T=2)], thorough=[dict(T=1), dict(T=2), dict(T=3)], bounds=f'1 or 2 days (3 thorough), any real counts in [0, 12]; {PAR}', max_paths=4000, time_s=300)
def agree(env, T):
    par = params(env)
    b, s, B, S = counts(env, T, 'real')
    p = pin(env, B, S)
    x = p.loglikelihood_EHO2010(env.asarray(list(par))); y = p.loglikelihood_LK2011(env.asarray(list(par)))
    env.eq(env.exp(x - y), 1.0, 'ratio of the likelihoods')


@ob('C23', quick=[dict(T=1), dict(T=2)], bounds='Lin-Ke likelihood: 1 or 2 days, real counts up to 5000, alpha, delta in [0.01, 0.99], arrival rates in [1, 5000]: no exponential overflows and not all of a day underflow', max_paths=4000, time_s=200)
def no_overflow(env, T):
    a, d = env.real('alpha', lo=0.01, hi=0.99), env.real('delta', lo=0.01, hi=0.99)
    par = [a, d] + [env.real(n, lo=1, hi=5000) for n in ('eB', 'eS', 'mu')]
    b = [env.real(f'buys{i}', lo=0, hi=5000) for i in range(T)]
    s = [env.real(f'sells{i}', lo=0, hi=5000) for i in range(T)]
    B, S = env.asarray(b), env.asarray(s)
    seen = []
    if env.symbolic:
        exp = env.np().exp

        def record(x, *a_, **k):
            seen.append(x); return exp(x, *a_, **k)
        env.np().exp = record
    got = pin(env, B, S).loglikelihood_LK2011(env.asarray(par))
    if not env.symbolic:
        import math
        env.check(math.isfinite(got), 'the Lin-Ke likelihood is finite for large counts')
        env.obs.clear()
        return
    for i in range(T):
        v = [x[i] for x in seen if getattr(x, 'shape', ()) == (T,)]
        if not v: env.unsupported('exponentials per day not identified')
        for x in v: env.check(x <= 700, 'the Lin-Ke likelihood is finite for large counts')
        top = v[0]
        for x in v[1:]: top = env.max(top, x)
        env.check(top >= -700, 'the Lin-Ke likelihood is finite for large counts')
    env.obs.clear()      # what is observed differs between the two modes


@ob('C23', quick=[dict(f=f, T=T) for f in ('EHO2010', 'LK2011') for T in (20, 60)], thorough=[dict(f=f, T=250) for f in ('EHO2010', 'LK2011')],
    bounds='20 and 60 days (250 thorough) of listed integer counts, an integer array; any alpha in [0.01, 0.99], the other parameters listed numbers')
def long_sample(env, f, T):
    a = env.real('alpha', lo=0.01, hi=0.99)
    par = (a, 0.3, 5.5, 6.25, 7.5)
    b, s = (L.ints(T, k, 0, 16) for k in (1, 2))
    got = getattr(pin(env, b, s), 'loglikelihood_' + f)(env.asarray(list(par)))
    want = -sum(env.log(mixture(env, par, int(x), int(y))) for x, y in zip(b, s))
    env.eq(got, want, 'log-likelihood')
