"""C25 blsprice"""
from symx.harness import ob

P = dict(lo=0.01, hi=100.0)


def inputs(env):
    S = env.real('S', pos=True, **P); K = env.real('K', pos=True, **P); T = env.real('T', pos=True, lo=0.01, hi=30.0)
    sg = env.real('sigma', pos=True, lo=0.01, hi=3.0); r = env.real('r', lo=-0.5, hi=0.5); q = env.real('q', lo=-0.5, hi=0.5)
    return S, K, T, sg, r, q


@ob('C25', bounds='all S, K in [0.01,100], T in [0.01,30], sigma in [0.01,3], r, q in [-0.5,0.5]; scalar inputs', quick=[dict(form='scalar'), dict(form='array')])
def formula(env, form):
    S, K, T, sg, r, q = inputs(env)
    f = env.mod('frds.measures').blsprice
    if form == 'array':
        S2 = env.real('S2', pos=True, **P)
        call, put = f(env.asarray([S, S2]), K, r, T, sg, q)
        call, put = call[0], put[0]
    else:
        call, put = f(S, K, r, T, sg, q)
    d1 = (env.log(S / K) + (r - q + sg * sg / 2) * T) / (sg * env.sqrt(T)); d2 = d1 - sg * env.sqrt(T)
    c = S * env.exp(-q * T) * env.cdf(d1) - K * env.exp(-r * T) * env.cdf(d2)
    env.eq(call, c, 'call', scale=1.0)
    env.eq(put, c - S * env.exp(-q * T) + K * env.exp(-r * T), 'put', scale=1.0)


@ob('C25', bounds='as formula; default q', quick=[{}])
def default_q(env):
    S, K, T, sg, r, q = inputs(env)
    f = env.mod('frds.measures').blsprice
    env.eq(f(S, K, r, T, sg), f(S, K, r, T, sg, 0.0), 'default q', scale=1.0)
    env.eq(f(S=S, K=K, r=r, T=T, sigma=sg, q=q), f(S, K, r, T, sg, q), 'keywords', scale=1.0)


@ob('C25', bounds='as formula; scale factor in (0,100]', quick=[{}])
def laws(env):
    S, K, T, sg, r, q = inputs(env)
    lam = env.real('lam', pos=True, lo=0.01, hi=100.0)
    f = env.mod('frds.measures').blsprice
    call, put = f(S, K, r, T, sg, q)
    env.eq(call - put, S * env.exp(-q * T) - K * env.exp(-r * T), 'parity', scale=1.0)
    c2, p2 = f(lam * S, lam * K, r, T, sg, q)
    env.eq(c2, lam * call, 'scaling call', scale=1.0); env.eq(p2, lam * put, 'scaling put', scale=1.0)
    c3, p3 = f(K, S, q, T, sg, r)
    env.eq(c3, put, 'swap', scale=1.0); env.eq(p3, call, 'swap', scale=1.0)


@ob('C25', bounds='as formula; upper bounds (lower bounds follow from the formula and are a fact about the normal distribution, see DESIGN)', quick=[{}])
def upper_bounds(env):
    S, K, T, sg, r, q = inputs(env)
    f = env.mod('frds.measures').blsprice
    call, put = f(S, K, r, T, sg, q)
    env.check(call <= S * env.exp(-q * T), 'call above the discounted asset')
    env.check(put <= K * env.exp(-r * T), 'put above the discounted strike')
