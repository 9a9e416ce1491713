"""Isolation forest: tables, the wrapper call, and every forest the documented growing rule allows"""
import itertools, math
import numpy as np

PKG = 'frds.algorithms.isolation_forest'
GAMMA = 0.5772156649015329


def c(n): return 2 * (math.log(n - 1) + GAMMA) - 2 * (n - 1) / n


class Frame:
    """the part of pandas.DataFrame anomaly_scores uses, with symbolic numeric columns (list of (name, kind, values), kind 'n' or 's')"""
    def __init__(self, env, cols, index): self.env = env; self.cols = cols; self.index = index
    @property
    def columns(self): return [n for n, _, _ in self.cols]
    @property
    def shape(self): return (len(self.index), len(self.cols))
    def __len__(self): return len(self.index)
    def copy(self, deep=True): return Frame(self.env, self.cols, self.index)

    def drop(self, labels=None, columns=None, axis=0):
        columns = labels if columns is None and axis == 1 else columns
        columns = [columns] if isinstance(columns, str) else list(columns)
        for k in columns:
            if k not in self.columns: raise KeyError(k)
        return Frame(self.env, [x for x in self.cols if x[0] not in columns], self.index)

    def select_dtypes(self, include=None, exclude=None):
        def hit(kind, spec):
            for t in spec if isinstance(spec, (list, tuple)) else [spec]:
                if t in (object, 'object', 'O'):
                    if kind == 's': return True
                elif t in (np.number, 'number', float, 'float', np.double, 'float64', np.floating):
                    if kind == 'n': return True
                else: self.env.unsupported(f"select_dtypes of {t}")
            return False
        return Frame(self.env, [x for x in self.cols if (include is None or hit(x[1], include)) and not (exclude is not None and hit(x[1], exclude))], self.index)

    def to_numpy(self, dtype=None, copy=False, na_value=None):
        n = len(self.index)
        kinds = {k for _, k, _ in self.cols}
        if dtype in (np.bytes_, 'S', bytes) and kinds <= {'s'}:
            a = np.array([[v[i] for _, _, v in self.cols] for i in range(n)], dtype='S') if self.cols else np.empty((n, 0), dtype='S1')
            return a
        if dtype in (np.double, float, 'float64', 'double', None) and kinds <= {'n'}:
            return self.env.asarray([v[i] for i in range(n) for _, _, v in self.cols]).reshape((n, len(self.cols)))
        self.env.unsupported(f"to_numpy({dtype}) of columns {kinds}")
    @property
    def values(self): return self.to_numpy()


class Out:
    """the DataFrame returned"""
    def __init__(self, data=None, index=None, columns=None): self.data = data; self.index = index; self.columns = columns


def table(env, n, cols):
    """cols: 'n' symbolic numbers; 'm<positions>' numbers missing at the positions; or a list of strings"""
    out = []
    for k, s in enumerate(cols):
        if isinstance(s, (tuple, list)): out.append((f"c{k}", 's', [x for x in s]))
        else:
            v = env.vec(f"x{k}", n)
            miss = [int(ch) for ch in s[1:]]
            out.append((f"c{k}", 'n', [math.nan if i in miss else v[i] for i in range(n)]))
    return out


def setup(env):
    """the module with its compiled extension"""
    if env.symbolic: env.patch('pandas', 'DataFrame', Out)
    return env.mod(PKG, ext=True)


def frame(env, cols, index):
    if env.symbolic: return Frame(env, cols, index)
    import pandas as pd
    return pd.DataFrame({n: (np.array(v, dtype=float) if k == 'n' else np.array(v, dtype=object)) for n, k, v in cols}, index=index)


def parts(env, r):
    """(scores, index, columns) of a result"""
    if isinstance(r, Out):
        return [r.data[i] for i in range(len(r.data))], list(r.index), list(r.columns)
    return [r.iloc[i, 0] for i in range(len(r))], list(r.index), list(r.columns)


class Oracle:
    """path-length vectors (one entry per row) of every tree that can be grown on a table"""
    def __init__(self, env, cols, n, tree_size):
        self.env = env; self.cols = [x for x in cols if x[1] == 'n'] + [x for x in cols if x[1] == 's']; self.n = n; self.ts = tree_size
        self.H = math.ceil(math.log2(tree_size)); self.memo = {}; self.lt = {}

    def left(self, a, i, s):
        """row i goes left when attribute a is split at the value of row s"""
        if (a, i, s) in self.lt: return self.lt[a, i, s]
        _, kind, v = self.cols[a]
        if i == s: r = kind == 'n' and v[i] is not None and self.nan(v[i])
        elif kind == 'n':
            if self.nan(v[s]): r = self.nan(v[i])
            else: r = self.nan(v[i]) or self.env.is_true(v[i] < v[s])
        else:
            x, y = (np.bytes_(q.encode()) if isinstance(q, str) else np.bytes_(q) for q in (v[i], v[s]))
            r = (len(x), bytes(x)) < (len(y), bytes(y))
        self.lt[a, i, s] = r
        return r

    @staticmethod
    def nan(x): return isinstance(x, float) and math.isnan(x)

    def grow(self, sample, rows, h):
        k = (sample, rows, h)
        if k in self.memo: return self.memo[k]
        m = len(sample)
        if m <= 1 or h >= self.H:
            L = h + (c(m) if m > 1 else 0.0)
            res = {tuple((r, L) for r in rows)}
        else:
            res = set()
            for a in range(len(self.cols)):
                for s in sample:
                    sl = tuple(i for i in sample if self.left(a, i, s)); sr = tuple(i for i in sample if i not in sl)
                    rl = tuple(i for i in rows if self.left(a, i, s)); rr = tuple(i for i in rows if i not in rl)
                    for x in self.grow(sl, rl, h + 1):
                        for y in self.grow(sr, rr, h + 1): res.add(tuple(sorted(x + y)))
        self.memo[k] = res
        return res

    def vectors(self):
        out = set()
        k = min(self.ts, self.n)
        for sample in itertools.combinations(range(self.n), k):
            out |= {tuple(L for _, L in v) for v in self.grow(sample, tuple(range(self.n)), 0)}
        return sorted(out)


def lengths(scores, forest, tree_size):
    """total path lengths over the forest implied by the scores"""
    return [-math.log2(s) * c(tree_size) * forest if 0 < s < math.inf else math.inf for s in map(float, scores)]


def nearest(vectors, got):
    return min(vectors, key=lambda v: sum(min(abs(a - b), 1e6) for a, b in zip(v, got)))
