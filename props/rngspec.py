"""Stand-ins for seeded numpy generators: draws are choices or symbolic values of the check"""


class Rng:
    def __init__(self, env, seed, supply):
        self._env, self._seed, self._supply = env, seed, supply

    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        f = self._supply.get(n)
        if f is None: self._env.unsupported(f'draws through {n}()')
        return lambda *a, **k: f(self, *a, **k)


def patch_rng(env, supply):
    """default_rng and RandomState give generators that take their draws from `supply` (method name -> function); returns the seeds used"""
    seeds = []

    def make(kind, seed=None):
        if isinstance(seed, Rng): return seed
        seeds.append(seed)
        return Rng(env, seed, supply)
    patch_makers(env, make)
    return seeds


class Bits:
    """a bit generator: only its kind and seed"""
    def __init__(self, kind, seed): self.kind, self.seed = kind, seed


def unwrap(kind, seed):
    while isinstance(seed, Bits): kind, seed = seed.kind or kind, seed.seed
    return kind, seed


def patch_makers(env, make):
    """every way numpy offers of creating a seeded generator goes through make(kind, seed)"""
    def maker(kind, doc):
        class M:
            def __new__(cls, seed=None): return make(*unwrap(kind, seed))
        M.__name__ = doc
        return M

    def bits(kind):
        class Bt(Bits):
            def __init__(self, seed=None): Bits.__init__(self, kind, seed)
        return Bt
    for n, k in (('default_rng', 'pcg'), ('RandomState', 'mt'), ('Generator', 'pcg')): env.patch('numpy.random', n, maker(k, n))
    for n, k in (('PCG64', 'pcg'), ('MT19937', 'mt'), ('PCG64DXSM', 'dxsm'), ('Philox', 'philox'), ('SFC64', 'sfc'), ('SeedSequence', None)): env.patch('numpy.random', n, bits(k))


def index_choice(env, log, pick=None):
    """choice(n, size, replace=True): every index is a choice of the check (or pick(i), i counting the draws)"""
    def choice(self, n, size=None, replace=True, p=None, axis=0, shuffle=True):
        if p is not None or not replace: env.fail('draws are not uniform with replacement'); env.unsupported('draws')
        n = n if isinstance(n, int) else len(n)
        shape = (size,) if isinstance(size, int) else tuple(size)
        k = 1
        for s in shape: k *= s
        done = sum(len(x) for x in log)
        v = [pick(done + i) % n if pick else env.choose(n, f'draw {len(log)}.{i}') for i in range(k)]
        log.append(v)
        import numpy as np
        return np.array(v, dtype=int).reshape(shape)
    return choice


class Streams:
    """seeded generators as streams of draws: the k-th draw of a generator is a value of the check that depends only on
    the kind of generator, its seed and k; an unseeded generator gives a new stream every time"""
    def __init__(self, env):
        self.env = env; self.streams = []; self.made = []
        patch_makers(env, self.make)

    def make(self, kind, seed):
        if isinstance(seed, Stream): return seed
        self.made.append(seed)
        for k, s, memo in self.streams:
            if k == kind and s is not None and seed is not None and self.env.is_true(s == seed): return Stream(self, memo)
        memo = (f'g{len(self.streams)}', {})
        self.streams.append((kind, seed, memo))
        return Stream(self, memo)

    def used(self):
        """seeds of the generators created since the last call"""
        m = self.made[:]; self.made.clear()
        return m


class Stream:
    def __init__(self, owner, memo): self._o = owner; self._memo = memo; self._n = 0

    def _take(self, kind, size, new):
        shape = () if size is None else (size,) if isinstance(size, int) else tuple(size)
        k = 1
        for s in shape: k *= s
        name, memo = self._memo; out = []
        for _ in range(k):
            key = (kind, self._n)
            if key not in memo: memo[key] = new(f'{name}_{kind}{self._n}')
            out.append(memo[key]); self._n += 1
        return out, shape

    def _reals(self, kind, size, new):
        v, shape = self._take(kind, size, new)
        return self._o.env.asarray(v).reshape(shape) if shape else v[0]

    def choice(self, n, size=None, replace=True, p=None, axis=0, shuffle=True):
        import numpy as np
        if p is not None or not replace: self._o.env.unsupported('draws')
        pool = None if isinstance(n, (int, np.integer)) else n
        m = int(n) if pool is None else len(n)
        v, shape = self._take(f'of{m}_', size, lambda nm: self._o.env.choose(m, nm))
        if not shape: return v[0] if pool is None else pool[v[0]]
        ix = np.array(v, dtype=int).reshape(shape)
        return ix if pool is None else pool[ix]

    def integers(self, low, high=None, size=None, **k):
        if high is None: low, high = 0, low
        r = self.choice(int(high - low), size)
        return r + int(low)

    def randint(self, low, high=None, size=None, **k): return self.integers(low, high, size)
    def normal(self, loc=0.0, scale=1.0, size=None):
        a = self._reals('normal', size, lambda nm: self._o.env.real(nm))
        return a if loc == 0 and scale == 1 else loc + scale * a
    def standard_normal(self, size=None): return self.normal(size=size)
    def randn(self, *shape): return self.normal(size=shape or None)
    def triangular(self, left, mode, right, size=None):
        u = self.uniform(size=size)
        return left + (right - left) * u
    def random_sample(self, size=None): return self.uniform(size=size)
    def random(self, size=None): return self.uniform(size=size)
    def rand(self, *shape): return self.uniform(size=shape or None)
    def uniform(self, low=0.0, high=1.0, size=None):
        """numbers fixed by the stream and the position (the valuations draw too many to keep them all arbitrary)"""
        g = int(self._memo[0][1:])
        v, shape = self._take('uniform', size, lambda nm: ((self._n * 37 + g * 29) % 89 + 5.5) / 100.0)
        v = [low + (high - low) * x for x in v]
        return self._o.env.asarray(v).reshape(shape) if shape else v[0]

    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        self._o.env.unsupported(f'draws through {n}()')
