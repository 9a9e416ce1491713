"""C30 building blocks of the modified Merton model"""
from symx.harness import ob

PKG = 'frds.measures.modified_merton.'
G = dict(r=(-0.1, 0.3), d=(0.0, 0.2), T=(0.1, 30.0), sig=(0.02, 2.0), F=(0.01, 100.0), ival=(-4.0, 4.0), rho=(0.01, 0.99), f=(-3.0, 3.0))
ALL = 'rate in [-0.1, 0.3], payout in [0, 0.2], maturity in [0.1, 30], volatility in [0.02, 2], face values in [0.01, 100], log values in [-4, 4], correlation in [0.01, 0.99]'


def sym(env, n, name=None): return env.real(name or n, lo=G[n][0], hi=G[n][1])


def payoff(env, F, f, ival, rho, sig, T):
    """E[min(A, F)] for log A normal with mean f + ival and variance (1 - rho) sig^2 T"""
    m = f + ival; s = sig * env.sqrt(T) * env.sqrt(1 - rho)
    d = (env.log(F) - m) / s
    return env.exp(m + (1 - rho) * sig * sig * T / 2) * env.cdf(d - s) + F * (1 - env.cdf(d))


@ob('C30', quick=[dict(form=x) for x in ('scalar', 'vector f', 'vector F', 'all vectors')], bounds=f'scalars and vectors of length 2: {ALL}')
def loan(env, form):
    fn = env.mod(PKG + 'loan_payoff').loan_payoff
    rho, sig, T = sym(env, 'rho'), sym(env, 'sig'), sym(env, 'T')
    F = [sym(env, 'F', f'F{i}') for i in range(2)]; f = [sym(env, 'f', f'f{i}') for i in range(2)]; v = [sym(env, 'ival', f'ival{i}') for i in range(2)]
    if form == 'scalar':
        env.eq(fn(F[0], f[0], v[0], rho, sig, T), payoff(env, F[0], f[0], v[0], rho, sig, T), 'loan payoff', scale=1e-6)
        return
    a = env.asarray
    FF = a(F) if form in ('vector F', 'all vectors') else F[0]
    vv = a(v) if form == 'all vectors' else v[0]
    got = fn(FF, a(f), vv, rho, sig, T)
    env.eq(got, [payoff(env, F[i] if form != 'vector f' else F[0], f[i], v[i] if form == 'all vectors' else v[0], rho, sig, T) for i in range(2)], 'loan payoff', scale=1e-6)


@ob('C30', quick=[{}], bounds=ALL)
def loan_limits(env):
    fn = env.mod(PKG + 'loan_payoff').loan_payoff
    F, f, v, rho, sig, T = (sym(env, n) for n in ('F', 'f', 'ival', 'rho', 'sig', 'T'))
    L = fn(F, f, v, rho, sig, T)
    env.check(L > 0, 'the loan payoff is positive')
    env.check(L < F + env.exp(f + v + (1 - rho) * sig * sig * T / 2), 'the loan payoff is below face value plus asset value')


def merton(env, A, sig, E, D, r, d, T, sigE):
    d1 = (env.log(A) - env.log(D) + (r - d + sig * sig / 2) * T) / (sig * env.sqrt(T)); d2 = d1 - sig * env.sqrt(T)
    pay = A * (1 - env.exp(-d * T))
    C = A * env.exp(-d * T) * env.cdf(d1) - D * env.exp(-r * T) * env.cdf(d2) + pay
    delta = env.exp(-d * T) * env.cdf(d1) + 1 - env.exp(-d * T)
    return E - C, sigE - delta * A / E * sig


@ob('C30', quick=[dict(seq=s) for s in ('tuple', 'array')], bounds=f'{ALL}; asset, equity and debt values in [0.01, 100], equity volatility in [0.02, 5]')
def merton_objective(env, seq):
    fn = env.mod(PKG + 'merton_solution').merton_solution
    A, E, D = (env.real(n, lo=0.01, hi=100.0) for n in ('A', 'E', 'D'))
    sig, r, d, T = (sym(env, n) for n in ('sig', 'r', 'd', 'T')); sE = env.real('sigE', lo=0.02, hi=5.0)
    x = (A, sig) if seq == 'tuple' else env.asarray([A, sig])
    got = fn(x, E, D, r, d, T, sE)
    env.check(len(got) == 2, 'two equations')
    want = merton(env, A, sig, E, D, r, d, T, sE)
    env.eq(got[0], want[0], 'equity value equation', scale=1e-3); env.eq(got[1], want[1], 'volatility equation', scale=1e-3)


@ob('C30', quick=[dict(which=w) for w in ('volatility', 'assets')], bounds='negative volatility in [-2, -0.01] or negative asset value in [-10, -0.01], the other arguments fixed')
def merton_penalty(env, which):
    import numpy as np
    fn = env.mod(PKG + 'merton_solution').merton_solution
    P = 9999999
    if which == 'volatility':
        v = env.real('v', lo=-2, hi=-0.01)
        got = fn((np.float64(1.2), v), 0.5, 0.7, 0.01, 0.002, 5.0, 0.4)
    else:
        v = env.real('v', lo=-10, hi=-0.01)
        got = fn((v, np.float64(0.3)), 0.5, 0.7, 0.01, 0.002, 5.0, 0.4)
    for i in range(2): env.check(got[i] >= P * v * v * 0.9, f'equation {i}: a negative trial value is penalised by its square')


@ob('C30', quick=[{}], bounds=f'{ALL}; yield in [-0.2, 1]')
def face_value(env):
    fn = env.mod(PKG + 'find_face_value_indiv').find_face_value_indiv
    F, v, sig, T, r, d = (sym(env, n) for n in ('F', 'ival', 'sig', 'T', 'r', 'd')); mu = env.real('mu', lo=-0.2, hi=1.0)
    d1 = (v - env.log(F) + (r - d + sig * sig / 2) * T) / (sig * env.sqrt(T)); d2 = d1 - sig * env.sqrt(T)
    put = F * env.exp(-r * T) * env.cdf(-d2) - env.exp(v - d * T) * env.cdf(-d1)
    L = F * env.exp(-r * T) - put
    env.assume(L > 1e-9)
    env.eq(fn(mu, F, v, sig, T, r, d), mu - env.log(F / L) / T, 'yield error', scale=1e-3)


# ------------------------------------------------------------------------------------------------ smoother
def install_fft(env):
    """discrete Fourier transforms by their defining theorem: a spectrum stands for its sequence, the product of two
    spectra for the circular convolution, the inverse transform returns the sequence"""
    if not env.symbolic: return

    class Spectrum:
        def __init__(self, s): self.s = list(s); self.shape = (len(self.s),)
        def __len__(self): return len(self.s)
        def __mul__(self, o):
            if not isinstance(o, Spectrum): return Spectrum([v * o for v in self.s])
            n = len(self.s)
            if n != len(o.s): raise ValueError('operands could not be broadcast together')
            return Spectrum([sum(self.s[j] * o.s[(i - j) % n] for j in range(n)) for i in range(n)])
        __rmul__ = __mul__

    def fft(a, n=None, axis=-1):
        s = [a[i] for i in range(len(a))]
        if n is not None: s = (s + [0.0] * n)[:n]
        return Spectrum(s)

    def ifft(a, n=None, axis=-1): return env.asarray(a.s)
    for k, v in (('fft', fft), ('ifft', ifft), ('rfft', fft), ('irfft', ifft)): env.patch('numpy.fft', k, v)


def smooth_spec(x, w):
    n = len(x); h = w // 2
    avg = {i: sum(x[i - h + 1:i + h + 1]) / w for i in range(h, n - h)}
    lo = avg[h + 1] - avg[h]; up = avg[n - h - 1] - avg[n - h - 2]
    return [avg[h] - (h - i) * lo if i < h else avg[n - h - 1] + (i - (n - h - 1)) * up if i >= n - h else avg[i] for i in range(n)]


NW = [(4, 2), (6, 2), (6, 4), (8, 4)]


@ob('C30', quick=[dict(n=n, w=w) for n, w in NW], thorough=[dict(n=n, w=w) for n, w in NW + [(10, 2), (10, 6), (12, 4), (12, 10)]], bounds='arbitrary input of length 4, 6, 8 (10, 12 thorough), even windows')
def smoother(env, n, w):
    install_fft(env)
    x = env.vec('x', n)
    got = env.mod(PKG + 'fftsmooth').fftsmooth(env.asarray(x), w)
    env.eq(got, smooth_spec(x, w), 'smoothed values', scale=1e-3)


@ob('C30', quick=[dict(n=n, w=w) for n, w in NW], bounds='arbitrary level and slope; lengths as smoother')
def smoother_linear(env, n, w):
    install_fft(env)
    a, b = env.real('level'), env.real('slope')
    got = env.mod(PKG + 'fftsmooth').fftsmooth(env.asarray([a + b * i for i in range(n)]), w)
    env.eq(got, [a + b * (i + 0.5) for i in range(n)], 'linear input (the even window looks half a step ahead)', scale=1e-3)
