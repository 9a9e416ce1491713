"""C20 CCA put and systemic-risk contribution"""
from symx.harness import ob

NAMES = ('equity', 'volatility', 'risk_free_rate', 'default_barrier', 'time_to_maturity', 'cds_spread')


def case(env, spreads=1):
    """asset value and volatility, and the equity value and volatility that they imply"""
    A = env.real('assets', pos=True, lo=0.1, hi=1000.0); s = env.real('asset_vol', pos=True, lo=0.05, hi=2.0)
    D = env.real('barrier', pos=True, lo=0.1, hi=1000.0); T = env.real('maturity', pos=True, lo=0.1, hi=20.0); r = env.real('r', lo=0.0, hi=0.3)
    d1 = (env.log(A / D) + (r + s * s / 2) * T) / (s * env.sqrt(T)); d2 = d1 - s * env.sqrt(T)
    disc = env.exp(-r * T)
    e = A * env.cdf(d1) - D * disc * env.cdf(d2)
    env.assume(e > 0)
    e = env.define(e)
    vol = A * s * env.cdf(d1) / e
    put = D * disc * env.cdf(-d2) - A * env.cdf(-d1)
    return A, s, D, T, r, d1, d2, disc, e, vol, put


def install(env, A, s):
    """fsolve: returns the true asset value and volatility in the parametrisation the equations use; the equations have to hold there"""
    import numpy as np
    used = []

    def solve(func, x0, args=(), fprime=None, full_output=0, **k):
        args = args if isinstance(args, tuple) else (args,)
        forms = [('square roots', (env.sqrt(A), env.sqrt(s))), ('levels', (A, s)), ('logs', (env.log(A), env.log(s)))]
        best = None
        for nm, x in forms:
            try: f = func(env.asarray(list(x)), *args)
            except (ValueError, ZeroDivisionError, OverflowError): continue
            f = [f[i] for i in range(2)]
            if all(small(env, v) for v in f): best = x; break
        used.append(best is not None)
        if best is None:
            env.fail('the asset value and volatility that reproduce equity value and volatility do not solve the equations')
            best = forms[0][1]
        x = env.asarray(list(best))
        return (x, {}, 1, '') if full_output else x
    env.patch('scipy.optimize', 'fsolve', solve)
    return used


def small(env, v):
    if env.symbolic:
        d = env.is_zero(v)
        return d
    return abs(float(v)) < 1e-7


def run(env, e, vol, r, D, T, spread):
    C = env.mod('frds.measures').ContingentClaimAnalysis
    return C.estimate(e, vol, r, D, T, spread)


B = 'asset value, barrier in [0.1, 1000], asset volatility in [0.05, 2], maturity in [0.1, 20], rate in [0, 0.3], spread in [0, 20000] basis points: all values; fsolve returns the solution of the documented equations'


@ob('C20', quick=[{}], bounds=B)
def formulas(env):
    A, s, D, T, r, d1, d2, disc, e, vol, put = case(env)
    used = install(env, A, s)
    sp = env.real('spread', nonneg=True, hi=20000.0)
    p, c = run(env, e, vol, r, D, T, sp)
    if not used: env.unsupported('the equations are not solved by fsolve')
    env.eq(p, put, 'put', scale=1.0)
    env.eq(e + D * disc - p, A, 'equity + discounted barrier - put = asset value', scale=1.0)
    debt = D * disc - put
    cds = (1 - env.exp(-(sp / 10000) * (D / debt - 1) * T)) * D * disc
    env.eq(c, put - cds, 'systemic contribution', scale=1.0)


@ob('C20', quick=[{}], bounds=B + '; spread 0')
def no_spread(env):
    A, s, D, T, r, d1, d2, disc, e, vol, put = case(env)
    used = install(env, A, s)
    p, c = run(env, e, vol, r, D, T, 0.0)
    if not used: env.unsupported('the equations are not solved by fsolve')
    env.eq(c, p, 'without a spread the contribution is the put', scale=1.0)


@ob('C20', quick=[{}], bounds=B + '; put value >= 0 (a fact of Black-Scholes, assumed)')
def monotone(env):
    A, s, D, T, r, d1, d2, disc, e, vol, put = case(env)
    used = install(env, A, s)
    env.assume(put >= 0)
    env.assume(D * disc - put > 0)
    s1 = env.real('spread1', nonneg=True, hi=20000.0); ds = env.real('increase', nonneg=True, hi=20000.0)
    c1 = run(env, e, vol, r, D, T, s1)[1]; c2 = run(env, e, vol, r, D, T, s1 + ds)[1]
    if not used: env.unsupported('the equations are not solved by fsolve')
    env.check(c2 <= c1 + 1e-9, 'the contribution does not increase with the spread')
