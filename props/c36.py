"""C36 simulation measures are reproducible and leave random state alone

The generators are streams: a draw is an arbitrary value that depends on the seed and the position only. Draws from or
changes to a process-global generator end the run as a violation (symx.loader.random_guard); on the real code the global
states are compared before and after."""
from symx.harness import ob, UTILS, MEAS
from props.rngspec import Streams
from props.c03 import EM
from props import c15, c31

PKG = 'frds.measures.modified_merton.'
X = (False, True)
# histories: calls with seed a or b, and of another size (capital)
HIST = ('aa', 'aba', 'aBa', 'baa')


def seeds(env, kind):
    if kind == 'any':
        a, b = env.real('seed_a', lo=0, hi=2 ** 31), env.real('seed_b', lo=0, hi=2 ** 31)
        env.assume(a != b)
        return dict(a=a, b=b)
    return dict(zip('ab', kind))


def history(env, hist, sd, call):
    """the calls of the history: the draws of each come from a generator with its seed, equal calls have equal results"""
    st = Streams(env)
    out = {}
    call = call(st)
    st.used()
    for k in hist:
        s = sd[k.lower()]
        r = call(s, k.isupper())
        u = st.used()
        env.check(len(u) > 0, 'draws come from a generator created for the call')
        for x in u:
            env.check(x is not None, 'the generator is seeded')
            if x is not None: env.eq(x, s, 'seed of the generator')
        if k in out: env.eq(r, out[k], f'the same call again (after {hist})')
        out[k] = r


SD = ('any', (0, 1), (42, 2 ** 32 - 1))


@ob('C36', quick=[dict(ext=x, hist=h, sd=s) for x in X for h, s in (('aa', 'any'), ('aBa', 'any'), ('ba', (0, 1)), ('aba', (42, 2 ** 32 - 1)))], thorough=[dict(ext=x, hist=h, sd=s) for x in X for h in HIST for s in SD],
    bounds='two draws from a history of three days; fitted series, parameters and C arbitrary; seeds any two different numbers; the simulated return is any function of the drawn shocks', max_paths=6000, guard_random=True, **EM, history=False)
def lrmes(env, ext, hist, sd):
    """LRMES: the same seed gives the same estimate whatever was estimated before, on the same object or another"""
    S = seeds(env, sd)
    C = env.real('C', lo=-0.9, hi=0.5)
    def setup(st):
        M = env.mod('frds.measures', ext=ext)
        m, L, fitted, rho, a, b, fits = c15.model(env, ext, 3)
        def sim(innovation, *args, **kw): return env.fn('firm', *[innovation[t, i] for t in range(len(innovation)) for i in range(2)]), True
        if ext: L.ext = type('E', (), {'simulation': staticmethod(sim)})
        m.simulation = sim
        return lambda seed, big: m.estimate(2 if big else 1, 1, C, seed)
    history(env, hist, S, setup)


@ob('C36', quick=[dict(n=n, agg=g, sd=s) for n in (1, 2) for g in X for s in ('any', (0, 1))], bounds='1 or 2 firms; LRMES any function of the firm, the settings and its random draws; seeds any two different numbers', guard_random=True, history=False)
def srisk(env, n, agg, sd):
    """SRISK: the seed reaches the LRMES of every firm, nothing else is drawn"""
    S = seeds(env, sd)
    W = [env.real(f'W{i}', pos=True) for i in range(n)]; D = [env.real(f'D{i}', nonneg=True) for i in range(n)]
    from props.c16 import returns
    fr, mr = returns(env, n)
    def setup(st):
        M = env.mod('frds.measures'); mod = env.mod('frds.measures._srisk')
        got = []
        class Fake:
            def __init__(self, firm_returns, market_returns): self.f = firm_returns
            def estimate(self, h=22, S=10_000, C=-0.1, random_seed=42):
                r = st.make('pcg', random_seed)
                got.append(1)
                return env.fn('lrmes', self.f[0], r.normal())
        M.LongRunMarginalExpectedShortfall = Fake; mod.LongRunMarginalExpectedShortfall = Fake
        w, d = (env.number(W[0]), env.number(D[0])) if n == 1 else (env.asarray(W), env.asarray(D))
        def call(seed, big):
            r = M.SRISK(fr, mr, w, d).estimate(aggregate_srisk=agg, lrmes_random_seed=seed)
            if not got: env.unsupported('LRMES is not computed by LongRunMarginalExpectedShortfall')
            return r
        return call
    history(env, 'aba', S, setup)


@ob('C36', quick=[dict(n=1, hist='aa', sd='any'), dict(n=1, hist='aBa', sd='any'), dict(n=1, hist='ba', sd=(0, 1)), dict(n=2, hist='aa', sd=(0, 7)), dict(n=1, hist='aba', sd=(42, 2 ** 32 - 1))],
    thorough=[dict(n=1, hist=h, sd=s) for h in HIST for s in SD] + [dict(n=2, hist='aba', sd='any'), dict(n=2, hist='aa', sd='any')],
    bounds='1 or 2 banks, default probabilities in [0.001, 0.999], any normal draws; losses given default are fixed numbers of seed and position; seeds any two different numbers', max_paths=6000, guard_random=True, time_s=200, history=False)
def premium(env, n, hist, sd):
    """the distress insurance premium repeats for a seed, on the same object or another"""
    S = seeds(env, sd)
    p = [env.real(f'pd{i}', lo=0.001, hi=0.999) for i in range(n)]
    C = [[1.0 if i == j else 0.25 for j in range(n)] for i in range(n)]
    def setup(st):
        M = env.mod('frds.measures')
        m = M.DistressInsurancePremium(env.asarray(p), env.asarray(C))
        k = []
        def call(seed, big):
            o = m if len(k) % 2 == 0 else M.DistressInsurancePremium(env.asarray(p), env.asarray(C))
            k.append(1)
            return o.estimate(0.15, seed, 2 if big else 1, 1)
        return call
    history(env, hist, S, setup)


@ob('C36', quick=[dict(model=m, hist=h, sd=s) for m in ('staggered', 'single') for h, s in (('aa', 'any'), ('aba', 'any'), ('ba', (0, 1)), ('aba', (42, 2 ** 32 - 1)))], thorough=[dict(model=m, hist=h, sd=s) for m in ('staggered', 'single') for h in ('aa', 'aba', 'baa') for s in SD],
    bounds='2 time steps, 1 path; debt face value, payout rate and guarantee share arbitrary; the draws are fixed numbers of seed and position, the smoothed payoffs any function of the payoffs; seeds any two different numbers', max_paths=3000, guard_random=True, history=False)
def merton(env, model, hist, sd):
    """the modified Merton computation repeats for a seed"""
    import numpy as np
    S = seeds(env, sd)
    N, fs = 2, [0.3]
    P = dict(r=0.02, T=2.0, bookF=0.66, H=1.0, rho=0.5, ltv=0.7, sig=0.25, d=0.005)
    c31.install(env, P, N, 3)
    env.patch(PKG + 'fftsmooth', 'fftsmooth', lambda x, w: env.asarray([env.fn('payoff', i, *[x[j] for j in range(len(x))]) ** 2 + 0.01 for i in range(len(x))]))
    D = env.real('D', lo=0.05, hi=3.0); g = env.real('g', lo=0.0, hi=1.0)
    name = 'mod_merton_computation' if model == 'staggered' else 'mod_single_cohort_computation'
    def setup(st):
        f = getattr(env.mod(PKG + name), name)
        def call(seed, big):
            out = f(np.array(fs), [P['r'], 2, P['bookF'], 1, D, P['rho'], P['ltv'], P['sig'], P['d'], 0.01, g], N, 1, random_seed=seed)
            return [out[i] for i in (0, 1, 2, 8, 9, 12)]
        return call
    history(env, hist, S, setup)
