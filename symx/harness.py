"""Obligations: one body of code, run symbolically (all values within the bounds, decided by the solver)
and concretely (replay of a solver assignment against the real package)."""
import importlib, itertools, json, math, os, random, sys, time, traceback, types
import numpy as np
from . import core, npshim, loader
from .core import Ctx, SymReal, SymBool, Unsupported, PathAbort, UninitError, EvalError, is_num
from .npshim import SArr

REGISTRY = {}          # property id -> [Ob]


class Ob:
    def __init__(self, prop, fn, name, quick, thorough, bounds, opts):
        self.prop = prop; self.fn = fn; self.name = name
        self.quick = quick; self.thorough = thorough; self.bounds = bounds; self.opts = opts

    def cases(self, tier):
        cs = list(self.thorough if tier == 'thorough' and self.thorough is not None else self.quick)
        if not self.opts.get('history', True) or not cs: return cs
        # one case per back end runs after an unrelated call of the same kind
        first = {}
        for c in self.quick: first.setdefault(c.get('ext'), c)
        return cs + [{**c, 'history': True} for c in first.values()]


UTILS = 'frds.algorithms.utils.utils_ext'; MEAS = 'frds.measures.measures_ext'; IFOREST = 'frds.algorithms.isolation_forest.iforest_ext'


def ob(prop, quick=({},), thorough=None, bounds='', **opts):
    """register fn(env, **params) as obligation of `prop`; opts: max_paths, time_s, pos facts…"""
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(Ob(prop, fn, fn.__name__, list(quick), list(thorough) if thorough is not None else None, bounds, opts))
        return fn
    return deco


def find_ob(prop, name):
    for o in REGISTRY[prop]:
        if o.name == name: return o
    raise KeyError(name)


class CheckFailed(Exception):
    """a check of the property failed (stops the path)"""


class AssumptionUnmet(BaseException):
    pass


class Tramp:
    """a stub that stays where it was put while the environment it stands for is set up again"""
    def __init__(self, env, key): self.__dict__['_at'] = (env, key)
    def __call__(self, *a, **k): return self._at[0].current[self._at[1]](*a, **k)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return getattr(self._at[0].current[self._at[1]], n)


def strip(params): return {k: v for k, v in params.items() if k != 'history'}


def history_value(name, attempt, lo, hi, pos, nonneg):
    v = default_value(random.Random(f'history {attempt} {name}'), lo, hi, pos, nonneg)
    return v * 0.3 ** (attempt % 3) if (pos or nonneg) and lo is None and hi is None else v


def run_history(env, fn, params):
    """calls on other data, before the calls that are judged; -> whether they ran to their end"""
    used = False
    for k in range(6):
        env.warm = True; env.attempt = k
        try:
            fn(env, **params)
            used = True
        except AssumptionUnmet: pass
        except Exception as e: used = in_repo(e) and not isinstance(e, (Unsupported, PathAbort))
        finally: env.warm = False
        env.obs.clear(); env.checks = 0
        if used: break
    return used


# ------------------------------------------------------------------------------------ flattening
def flat(x, path=''):
    """[(path, scalar)] of nested lists/arrays/tuples/dicts"""
    if isinstance(x, dict):
        out = []
        for k in x: out += flat(x[k], f"{path}.{k}")
        return out
    if isinstance(x, np.ndarray):
        if x.ndim == 0: return [(path, x.item() if not isinstance(x, SArr) else x[()])]
        out = []
        for i in range(x.shape[0]):
            out += flat(x[i], f"{path}[{i}]")
        return out
    if isinstance(x, (list, tuple)):
        out = []
        for i, v in enumerate(x): out += flat(v, f"{path}[{i}]")
        return out
    if hasattr(x, 'to_numpy') and hasattr(x, 'index'):
        return flat(x.to_numpy(), path)
    return [(path, x)]


def shape_of(x):
    if isinstance(x, dict): return ('d',) + tuple((k, shape_of(v)) for k, v in x.items())
    if isinstance(x, np.ndarray): return tuple(x.shape)
    if hasattr(x, 'to_numpy') and hasattr(x, 'index'): return tuple(x.shape)
    if isinstance(x, (list, tuple)):
        s = [shape_of(v) for v in x]
        if s and all(t == s[0] and not (t and t[0] == 'd') for t in s): return (len(s),) + s[0]
        return ('l',) + tuple(s) if s else (0,)
    return ()


def isfinite(v):
    return isinstance(v, SymReal) or math.isfinite(v)


# ------------------------------------------------------------------------------------ environments
class EnvBase:
    def __init__(self):
        self.obs = []            # observed values, in order (translator validation)
        self.modes = {}
        self.checks = 0
        self.current = {}

    warm = False; hist = False; attempt = 0

    def stand(self, key, val):
        """what to install for a stub"""
        if not self.hist or not callable(val): return val
        self.current[key] = val
        return Tramp(self, key)

    def vec(self, name, n, **k): return [self.real(f"{name}[{i}]", **k) for i in range(n)]

    def arr(self, name, shape, kind='array', **k):
        if isinstance(shape, int): shape = (shape,)
        def build(idx, rest):
            if not rest: return self.real(name + '[' + ','.join(map(str, idx)) + ']', **k)
            return [build(idx + [i], rest[1:]) for i in range(rest[0])]
        v = build([], list(shape))
        if kind == 'list': return v
        if kind == 'tuple': return tuple(v)
        a = self.asarray(v, shape)
        if kind == 'series':
            return self.series(a)
        return a

    def raises(self, exc, f, msg):
        """f() raises an exception of type exc"""
        try:
            f()
        except (Unsupported, PathAbort, UninitError, AssumptionUnmet, CheckFailed): raise
        except exc:
            self.ok(); return
        except Exception as e:
            self.fail(f"{msg}: raised {type(e).__name__}: {e}")
            return
        self.fail(f"{msg}: did not raise")

    def close_flag(self, a, b): raise NotImplementedError


class SymEnv(EnvBase):
    symbolic = True

    def __init__(self, run):
        super().__init__()
        self.run = run
        self.ctx = run.ctx
        self.patches = {}
        self.provided = {}
        self.loaders = {}
        self.random = loader.random_guard()
        self.choices = []
        self.extmods = {}

    # inputs
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False):
        if self.warm: return npshim.F(history_value(name, self.attempt, lo, hi, pos, nonneg))
        return core.sym(name, pos=pos, nonneg=nonneg, lo=lo, hi=hi)

    def choose(self, n, label):
        if self.warm: return 0
        v = core.choose(n, label)
        self.choices.append((label, v))
        return v

    def asarray(self, v, shape=None):
        return npshim.SArr_from(v, shape)

    def workers(self, n): self.threads = n      # processors reported to compiled code

    def series(self, a):
        import pandas as pd
        return pd.Series([a[i] for i in range(len(a))], dtype=object)

    def fn(self, name, *args):
        if self.warm: return npshim.F(core.atom_eval(types.SimpleNamespace(kind='fn', name=name), [float(x) for x in args]).real)
        return core.s_fn(name, *args)

    # functions usable in specifications
    log = staticmethod(core.s_log); exp = staticmethod(core.s_exp); sqrt = staticmethod(core.s_sqrt)
    cdf = staticmethod(core.s_cdf); ppf = staticmethod(core.s_ppf)
    max = staticmethod(core.s_max); min = staticmethod(core.s_min)

    def is_true(self, c): return bool(c)

    # modules
    def patch(self, module, attr, val):
        k = (module, attr)
        if self.hist and self.loaders and k in self.patches:
            if k in self.current: self.current[k] = val
            else:
                self.patches[k] = val
                for L in self.loaders.values(): setattr(self.random if module == 'numpy.random' else L.load(module) if module.startswith('frds') else L.std(module), attr, val)
            return
        self.patches[k] = self.stand(k, val)

    def provide(self, name, obj):
        """a stand-in for a whole third-party module"""
        k = ('module', name)
        if k in self.current: self.current[k] = obj; return
        t = self.stand(k, obj)
        self.provided[name] = t
        top, _, sub = name.partition('.')
        if sub: self.provided.setdefault(top, types.ModuleType(top)); setattr(self.provided[top], sub, t)

    def loader(self, ext=False):
        if ext in self.loaders: return self.loaders[ext]
        extm = {}
        if ext:
            from . import extsym
            extm = extsym.modules(self)
        L = loader.Loader(ext=extm, random=self.random, ext_enabled=bool(ext), overrides=dict(self.provided))
        for (m, a), v in self.patches.items():
            if m == 'numpy.random': setattr(self.random, a, v)
            elif not m.startswith('frds'): setattr(L.std(m), a, v)
        for (m, a), v in self.patches.items():
            if m.startswith('frds'): setattr(L.load(m), a, v)
        self.loaders[ext] = L
        self.run.loaders.append(L)
        return L

    def mod(self, name, ext=False):
        return self.loader(ext).load(name)

    def np(self, ext=False): return self.loader(ext).np

    # conditions
    def assume(self, c):
        if self.warm:
            if not bool(c): raise AssumptionUnmet()
            return
        if isinstance(c, SymBool):
            k = core.bkey(c)
            if self.ctx.known.get(k) is True: return
            if self.ctx.known.get(k) is False: raise PathAbort("assumption contradicts path")
            self.ctx.pc.append(c)
            self.ctx.known[k] = True
            self.ctx.known[core.bkey(core.s_not(c))] = False
            d = c
            if c.k == 'rel' and c.b == '<' and not self.ctx.taken: self.ctx.pos.add(core.p_key(core.p_scale(c.a, -1.0)))
        elif not c:
            raise PathAbort("assumption false")

    def define(self, v): return v if self.warm else core.define(v)

    def prove_fact(self, c, using, msg):
        """the solver derives condition c of the path from `using`; then c is a fact of the path"""
        if self.warm: return
        if not isinstance(c, SymBool):
            if not c: raise Unsupported(f"{msg}: false lemma")
            return
        if self.ctx.known.get(core.bkey(c)): return
        if core.solve(list(u for u in using if isinstance(u, SymBool)) + [core.s_not(c)], 4000) != 'unsat': raise Unsupported(f"{msg}: lemma not proved")
        self.fact(c)

    def fact(self, q):
        self.ctx.pc.append(q); self.ctx.known[core.bkey(q)] = True; self.ctx.known[core.bkey(core.s_not(q))] = False

    def lemma_pos(self, terms, msg='lemma', also=()):
        """sum of products of factors with known signs is positive (or non-negative): z3 confirms it over abstract
        factors, then the expanded polynomial becomes a fact of the path.  Returns the sum."""
        if self.warm: return sum(math.prod(fs) for fs in terms)
        z = core.z3
        tot = 0; zt = []; facts = []; names = {}
        for fs in terms:
            pr = 1; zp = z.RealVal(1)
            for f in fs:
                pr = pr * f
                if not isinstance(f, SymReal): zp = zp * core.frac(float(f)); continue
                k = core.p_key(f.p), f.p.get(min(f.p), 0) > 0 if f.p else None
                if k not in names:
                    names[k] = z.Real(f'f{len(names)}')
                    r = core.p_sign_path(f.p)
                    if r is None:
                        # an even power of an unknown sign
                        facts.append(z.BoolVal(True))
                    else: facts.append(names[k] * r[0] > 0 if r[1] else names[k] * r[0] >= 0)
                zp = zp * names[k]
            tot = tot + pr; zt.append(zp)
        s = z.Solver(); s.set('timeout', 3000)
        s.add(*facts)
        def holds(c):
            s.push(); s.add(z.Not(c)); t = time.time(); r = s.check(); s.pop()
            self.ctx.stats.solver_s += time.time() - t; self.ctx.stats.queries += 1
            if r == z.unsat: self.ctx.stats.unsat += 1
            return r == z.unsat
        e = z.Sum(zt)
        if not isinstance(tot, SymReal): return tot
        for op, c in (('>', e > 0), ('>=', e >= 0)):
            if holds(c):
                q = core.rel(tot.p, op)
                if isinstance(q, SymBool): self.fact(q)
                for x in also:       # other forms of the same value (named intermediate values)
                    if not isinstance(x, SymReal): continue
                    if not core.same_expanded(x.p, tot.p): raise Unsupported(f"{msg}: other form differs")
                    q = core.rel(x.p, op)
                    if isinstance(q, SymBool): self.fact(q)
                break
        else: raise Unsupported(f"{msg}: sign lemma not proved")
        return tot

    def unsupported(self, msg): raise Unsupported(msg)

    def number(self, v): return v      # a plain Python float

    def is_zero(self, v):
        """v is identically zero on the path"""
        if not isinstance(v, SymReal): return abs(float(v)) < 1e-9
        if core.p_prove_zero(v.p): return True
        c = core.rel(v.p, '!=')
        return c is False or (isinstance(c, SymBool) and core.solve(self.ctx.base_pc + self.ctx.pc + [c], 3000) == 'unsat')

    def require_feasible(self):
        if self.warm: return
        if core.solve(self.ctx.base_pc + self.ctx.pc, self.ctx.feas_timeout) == 'unsat': raise PathAbort("infeasible")

    def ok(self):
        if self.warm: return
        self.checks += 1; self.run.discharged['concrete'] += 1

    def fail(self, msg):
        if self.warm: return
        self.run.candidate(self, msg, None)

    def check(self, c, msg, using=()):
        if self.warm: return
        self.checks += 1
        if not isinstance(c, SymBool):
            self.obs.append(('b', bool(c)))
            if not c: self.fail(msg)
            else: self.run.discharged['concrete'] += 1
            return
        self.obs.append(('c', c))
        self.run.prove(self, c, msg, using)

    def eq(self, a, b, msg, scale=None, tol=None, visible=0.0):
        if self.warm: return
        sa, sb = shape_of(a), shape_of(b)
        if sa != sb:
            self.fail(f"{msg}: shape {sa} != {sb}"); return
        for (p, x), (_, y) in zip(flat(a), flat(b)):
            self.checks += 1
            if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
                if x != y: self.fail(f"{msg}{p}: {x!r} != {y!r}")
                else: self.run.discharged['concrete'] += 1
                continue
            if isinstance(x, SymBool): x = bool(x)
            if isinstance(y, SymBool): y = bool(y)
            if x is npshim.UNINIT or y is npshim.UNINIT: raise UninitError(msg)
            self.obs.append(('r', x))
            if not isinstance(x, (SymReal, int, float, np.number, np.bool_)):
                self.fail(f"{msg}{p}: result is a {type(x).__name__}"); continue
            if not isinstance(x, SymReal) and not isinstance(y, SymReal):
                x, y = float(x), float(y)
                same = (x != x and y != y) or x == y or (math.isfinite(x) and math.isfinite(y) and abs(x - y) <= 1e-9 * max(abs(x), abs(y), 1e-9 if scale is None else scale))
                if not same: self.fail(f"{msg}{p}: {x!r} != {y!r}")
                else: self.run.discharged['concrete'] += 1
                continue
            if (not isinstance(x, SymReal) and not math.isfinite(x)) or (not isinstance(y, SymReal) and not math.isfinite(y)):
                self.fail(f"{msg}{p}: {x!r} != {y!r}"); continue
            d = x - y
            self.run.prove_eq(self, d, f"{msg}{p}", x, y, visible)

    def same_flag(self, a, b, msg):
        self.check(bool(a) == bool(b), msg)


class RealEnv(EnvBase):
    """runs an obligation on the real package with the values of an assignment"""
    symbolic = False
    RTOL = 1e-6

    def __init__(self, asg, choices, extdir=None):
        super().__init__()
        self.asg = asg; self.chs = list(choices); self.failures = []
        self.used = {}
        self.patches = []
        self.late = []
        self.saved = {}
        self.sets = {}
        self.extdir = extdir
        self.checks = 0
        self.maxdev = 0.0
        # draws of the compiled generators (verif_rng.hpp) and thread orders are not taken by Python code
        tab = ''
        for lab, v in [c for c in self.chs if c[0].startswith(('draw(', 'sample('))]:
            k = [int(x) for x in lab[lab.index('(') + 1:-1].split(',')]
            if lab[0] == 'd': tab += ';d:' + ':'.join(map(str, k)) + f'={k[2] + v}'
            else: tab += ';s:' + ':'.join(map(str, k)) + '=' + ','.join(map(str, list(itertools.combinations(range(k[2]), k[3]))[v]))
        self.chs = [c for c in self.chs if not c[0].startswith(('draw(', 'sample(', 'thread'))]
        os.environ['VERIF_DRAWS'] = tab + ';'
        os.environ['VERIF_THREADS'] = '2'

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False):
        if self.warm: return np.float64(history_value(name, self.attempt, lo, hi, pos, nonneg))
        if name in self.asg: v = float(self.asg[name])
        else:
            r = random.Random(name)
            v = default_value(r, lo, hi, pos, nonneg)
        self.used[name] = v
        return np.float64(v)

    def choose(self, n, label):
        if self.warm or not self.chs: return 0
        lab, v = self.chs.pop(0)
        return v

    def asarray(self, v, shape=None):
        a = np.array(v, dtype=float)
        return a.reshape(shape) if shape is not None else a

    def series(self, a):
        import pandas as pd
        return pd.Series(a)

    def fn(self, name, *args):
        a = types.SimpleNamespace(kind='fn', name=name)
        return np.float64(core.atom_eval(a, [float(x) for x in args]).real)

    @staticmethod
    def log(x): return np.log(x)
    @staticmethod
    def exp(x): return np.exp(x)
    @staticmethod
    def sqrt(x): return np.sqrt(x)
    @staticmethod
    def cdf(x): return np.float64(core._ncdf(float(x)))
    @staticmethod
    def ppf(x): return np.float64(core._nppf(float(x)))
    max = staticmethod(lambda a, b: a if a >= b else b)
    min = staticmethod(lambda a, b: a if a <= b else b)

    def is_true(self, c): return bool(c)

    def patch(self, module, attr, val):
        for n in ('scipy.optimize', 'scipy.stats', 'pandas'): importlib.import_module(n)
        k = (module, attr)
        if k in self.current:
            self.current[k] = val; return
        val = self.stand(k, val)
        if module.startswith('frds'):      # applied when the package is (freshly) imported
            self.late.append((module, attr, val)); return
        m = importlib.import_module(module)
        self.patches.append((m, attr, getattr(m, attr, None)))
        setattr(m, attr, val)

    def provide(self, name, obj):
        k = ('module', name)
        if k in self.current: self.current[k] = obj; return
        t = self.stand(k, obj)
        top, _, sub = name.partition('.')
        for n, m in ((name, t),) + (((top, types.ModuleType(top)),) if sub else ()):
            self.saved.setdefault(n, sys.modules.get(n)); sys.modules[n] = m
        if sub: setattr(sys.modules[top], sub, t)

    def mod(self, name, ext=False):
        s = self.sets.setdefault(ext, {})
        for k in [k for k in sys.modules if k == 'frds' or k.startswith('frds.')]: del sys.modules[k]
        from . import buildext
        if ext: buildext.install(self.extdir)
        else: buildext.block()
        for k, v in s.items(): sys.modules[k] = v
        for mm, a, v in self.late:
            if mm not in s: setattr(importlib.import_module(mm), a, v)
        m = importlib.import_module(name)
        for k in list(sys.modules):
            if k == 'frds' or k.startswith('frds.'): s[k] = sys.modules[k]
        return m

    def workers(self, n): os.environ['VERIF_THREADS'] = str(n)

    def np(self, ext=False): return np

    def close(self):
        for m, a, v in reversed(self.patches):
            if v is None: delattr(m, a)
            else: setattr(m, a, v)
        for n, m in self.saved.items():
            if m is None: sys.modules.pop(n, None)
            else: sys.modules[n] = m
        for k in [k for k in sys.modules if k == 'frds' or k.startswith('frds.')]: del sys.modules[k]

    def assume(self, c):
        if not bool(c): raise AssumptionUnmet()
    def require_feasible(self): pass
    def unsupported(self, msg): raise AssumptionUnmet()
    def number(self, v): return float(v)
    def is_zero(self, v): return abs(float(v)) < 1e-9

    def define(self, v): return v
    def prove_fact(self, c, using, msg): pass

    def lemma_pos(self, terms, msg='', also=()):
        tot = 0
        for fs in terms:
            pr = 1
            for f in fs: pr = pr * f
            tot = tot + pr
        return tot

    def ok(self): self.checks += 1
    def fail(self, msg):
        if not self.warm: self.failures.append(msg)

    def check(self, c, msg, using=()):
        if self.warm: return
        self.checks += 1
        self.obs.append(('b', bool(c)))
        if not bool(c): self.fail(msg)

    def eq(self, a, b, msg, scale=None, tol=None, visible=0.0):
        if self.warm: return
        sa, sb = shape_of(a), shape_of(b)
        if sa != sb:
            self.fail(f"{msg}: shape {sa} != {sb}"); return
        for (p, x), (_, y) in zip(flat(a), flat(b)):
            self.checks += 1
            if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
                if x != y: self.fail(f"{msg}{p}: {x!r} != {y!r}")
                continue
            try: x, y = float(x), float(y)
            except TypeError:
                self.fail(f"{msg}{p}: result is a {type(x).__name__}"); continue
            self.obs.append(('r', x))
            if x == y or (x != x and y != y): continue
            s = max(abs(x), abs(y))
            dev = abs(x - y) / max(s, 1e-9 if scale is None else scale, 1e-300) if math.isfinite(x) and math.isfinite(y) else math.inf
            if dev > (tol or self.RTOL):
                self.maxdev = max(self.maxdev, dev)
                self.fail(f"{msg}{p}: got {x!r}, expected {y!r}")

    def same_flag(self, a, b, msg): self.check(bool(a) == bool(b), msg)


def default_value(r, lo, hi, pos, nonneg):
    if lo is not None and hi is not None: return lo + (hi - lo) * (0.1 + 0.8 * r.random())
    if lo is not None: return lo + 0.3 + 1.5 * r.random()
    if hi is not None: return hi - 0.3 - 1.5 * r.random()
    v = 0.3 + 1.5 * r.random()
    return v if pos or nonneg else v * r.choice([-1, 1])


# ------------------------------------------------------------------------------------ symbolic run of one obligation
class Run:
    def __init__(self, o, params, seed=1, deadline=None, tier='quick'):
        self.o = o; self.params = params; self.tier = tier
        self.ctx = Ctx(); Ctx.cur = self.ctx
        for k in ('max_decisions', 'feas_timeout', 'check_timeout', 'zero_div'):
            if k in o.opts: setattr(self.ctx, k, o.opts[k])
        self.rng = random.Random(seed * 7919 + 13)
        self.cands = []; self.inconcl = []; self.witness = []
        self.discharged = {'normal_form': 0, 'solver': 0, 'concrete': 0}
        self.loaders = []
        self.funcs = set()
        self.deadline = deadline
        self.maxwit = o.opts.get('witnesses', 2)
        self.pending_assume = []

    # ---- verdicts
    def candidate(self, env, msg, bad, extra=None):
        """the path's checks fail when `bad` (SymBool or None) holds: find concrete values"""
        ctx = self.ctx
        if sum(1 for c in self.cands if c['msg'] == msg) >= 3 or len(self.cands) >= 12:
            raise CheckFailed(msg)
        conds = ctx.base_pc + ctx.pc
        res = 'sat'
        if bad is None:
            r = core.solve(conds, ctx.feas_timeout)
            if r == 'unsat': raise PathAbort("infeasible")
        ass = self.concretise(conds, bad)
        if ass is None:
            self.inconcl.append(f"{msg}: refuted or undecided symbolically, but no concrete values were found")
        else:
            self.cands.append({'msg': msg, 'asg': ass, 'choices': env.choices})
        raise CheckFailed(msg)

    def prove(self, env, c, msg, using=()):
        ctx = self.ctx
        k = core.bkey(c)
        if ctx.known.get(k) is True:
            self.discharged['solver'] += 1; return
        conds = ctx.base_pc + ctx.pc + [u for u in using if isinstance(u, SymBool)]
        bad = core.s_not(c)
        r = core.solve(conds + [bad], min(1500, ctx.check_timeout))
        if r == 'unsat':
            self.discharged['solver'] += 1
            return
        a = self.concretise(ctx.base_pc + ctx.pc, bad, quick=True)
        if a is None:
            r = core.solve(conds + [bad], ctx.check_timeout)
            if r == 'unsat':
                self.discharged['solver'] += 1; return
            a = self.concretise(ctx.base_pc + ctx.pc, bad)
        if a is None:
            self.inconcl.append(f"{msg}: solver answered {r} and no concrete counterexample was found")
            return
        self.cands.append({'msg': msg, 'asg': a, 'choices': env.choices})
        raise CheckFailed(msg)

    def equal(self, x, y):
        """x and y have the same normal form; the solver confirms it independently where it can"""
        px = x.p if isinstance(x, SymReal) else core.p_const(float(x)); py = y.p if isinstance(y, SymReal) else core.p_const(float(y))
        if self.crosschecks < 80 and len(px) + len(py) < 150 and self.cross_s < 12:
            self.crosschecks += 1
            t = time.time()
            r = core.solver_equal(px, py, 300)
            self.cross_s += time.time() - t
            if r == 'unsat':
                self.discharged['solver'] += 1; return
        self.discharged['normal_form'] += 1

    crosschecks = 0; cross_s = 0.0

    def prove_eq(self, env, d, msg, x, y, visible=0.0):
        ctx = self.ctx
        if not isinstance(d, SymReal):
            scale = 1.0
            for z in (x, y):
                if isinstance(z, SymReal): scale = max([scale] + [abs(c) for c in z.p.values()])
            if abs(d) <= 1e-9 * scale:
                self.equal(x, y); return
            self.candidate(env, f"{msg}: differs by {d}", None)
        # coefficients are rounded decimals: a difference whose coefficients are all rounding noise is zero
        scale = 0.0
        for z in (x, y):
            if isinstance(z, SymReal): scale = max([scale] + [abs(c) for c in z.p.values()])
            else: scale = max(scale, abs(float(z)))
        if core.p_prove_zero(d.p):
            self.equal(x, y); return
        bad = core.rel(d.p, '!=')
        if bad is False:
            self.discharged['normal_form'] += 1; return
        if bad is True: bad = None
        conds = ctx.base_pc + ctx.pc
        if bad is not None:
            r = core.solve(conds + [bad], min(1000, ctx.check_timeout))
            if r == 'unsat':
                self.discharged['solver'] += 1; return
        a = self.concretise(conds, bad, quick=True, diff=(d, x, y, visible))
        if a is None and visible: a = self.concretise(conds, bad, quick=True, diff=(d, x, y, 0.0))
        if a is None and bad is not None:
            r = core.solve(conds + [bad], ctx.check_timeout)
            if r == 'unsat':
                self.discharged['solver'] += 1; return
            # proof with a tolerance: |d| > 1e-7 impossible
            a = self.concretise(conds, bad, diff=(d, x, y, visible))
        if a is None:
            self.inconcl.append(f"{msg}: not proved equal and no concrete counterexample was found")
            return
        if sum(1 for c in self.cands if c['msg'] == msg) < 3:
            self.cands.append({'msg': msg, 'asg': a, 'choices': env.choices})
        raise CheckFailed(msg)

    # ---- concrete values for a set of conditions
    def sample(self, base=None, jitter=None):
        asg = {}
        for n, a in self.ctx.vars.items():
            if base is not None and n in base:
                v = base[n]
                if jitter:
                    v = v + jitter * self.rng.uniform(-1, 1) * max(abs(v), 0.05)
                    if a.lo is not None: v = max(v, a.lo)
                    if a.hi is not None: v = min(v, a.hi)
                    if a.pos and v <= 0: v = base[n]
                    if a.nonneg and v < 0: v = base[n]
                asg[n] = v
            else:
                s = self.rng.choice([1.0, 1.0, 0.1, 3.0, 10.0])
                v = default_value(self.rng, a.lo, a.hi, a.pos, a.nonneg)
                if not (a.lo is not None and a.hi is not None) and a.lo is None and a.hi is None: v *= s
                asg[n] = v
        return asg

    def holds(self, conds, bad, asg, diff, slack):
        cache = {}
        try:
            for c in conds:
                if not core.eval_bool(c, asg, cache, slack): return False
            if diff is not None:
                d, x, y, seen = diff
                dv = core.eval_poly(d.p, asg, cache) if isinstance(d, SymReal) else d
                xv = core.eval_poly(x.p, asg, cache) if isinstance(x, SymReal) else float(x)
                yv = core.eval_poly(y.p, asg, cache) if isinstance(y, SymReal) else float(y)
                return abs(dv) > max(1e-5 * max(abs(xv), abs(yv), 1e-6), seen)
            if bad is not None:
                return core.eval_bool(bad, asg, cache, slack * 1e3)
            return True
        except (EvalError, ValueError, ZeroDivisionError, OverflowError, KeyError, TypeError):
            return False

    def model_values(self, model, enc):
        out = {}
        for n, a in self.ctx.vars.items():
            x = enc.v.get(a.id)
            if x is None: continue
            v = model.eval(x, model_completion=True)
            try:
                if core.z3.is_rational_value(v): out[n] = float(v.as_fraction())
                else: out[n] = float(v.approx(12).as_fraction())
            except Exception: pass
        return out

    def concretise(self, conds, bad, quick=False, diff=None, strict=False):
        t0 = time.time(); budget = 3.0 if quick else 12.0
        extra = [] if bad is None else [bad]
        slacks = (1e-6, 1e-9) if strict else (1e-6, 1e-9, 0.0)
        for _ in range(60):
            a = self.sample()
            if self.holds(conds, bad, a, diff, 1e-6): return a
        vs = list(self.ctx.vars.items())
        rounds = 3 if quick else 14
        for k in range(rounds):
            if time.time() - t0 > budget: break
            fix = []
            base0 = self.sample()
            if k:
                share = self.rng.choice([0.3, 0.6, 0.9, 1.0]) if k > 1 else 0.5
                for n, a in vs:
                    if self.rng.random() < share:
                        val = float('%.2g' % base0[n])
                        if (a.pos and val <= 0) or (a.lo is not None and val < a.lo) or (a.hi is not None and val > a.hi): val = base0[n]
                        base0[n] = val
                        fix.append((a.id, val))
            def ex(e, fix=fix):
                return [e.atom(i) == core.frac(v) for i, v in fix]
            r, m = core.solve(conds + extra, 1500 if quick else 2500, model=True, extra=ex)
            if r != 'sat': continue
            mv = self.model_values(*m)
            base = {**base0, **mv}
            for n, v in list(base.items()):
                if n not in mv and n in base0: base[n] = base0[n]
            for sl in slacks:
                if self.holds(conds, bad, base, diff, sl): return base
            for j in (0.02, 0.1, 0.3, 1.0):
                for _ in range(15):
                    a = self.sample(base, j)
                    if self.holds(conds, bad, a, diff, 1e-9): return a
        # last resort: values that satisfy the path, any distance from the boundary
        for _ in range(400 if not quick else 100):
            if time.time() - t0 > budget * 1.5 or strict: break
            a = self.sample()
            if self.holds(conds, bad, a, diff, 0.0): return a
        return None

    # ---- exploration
    def go(self):
        ctx = self.ctx
        stack = [[]]
        maxp = self.o.opts.get('max_paths', 600)
        complete = True
        completed = 0
        import signal
        while stack:
            if self.deadline and time.time() > self.deadline:
                complete = False; self.inconcl.append("time limit reached before all paths were explored"); break
            if ctx.stats.paths >= maxp:
                complete = False; self.inconcl.append(f"path limit {maxp} reached"); break
            prefix = stack.pop()
            ctx.reset_path(prefix)
            ctx.pos = set()
            env = SymEnv(self)
            ctx.stats.paths += 1
            prof = None
            if ctx.stats.paths <= 4:
                src = loader.SRC
                funcs = self.funcs
                def prof(frame, ev, arg, src=src, funcs=funcs):
                    if ev == 'call':
                        c = frame.f_code
                        if c.co_filename.startswith(src): funcs.add(os.path.relpath(c.co_filename, src) + ':' + c.co_qualname)
                sys.setprofile(prof)
            try:
                try:
                    with np.errstate(all='ignore'):
                        if self.params.get('history'):
                            env.hist = True
                            made = run_history(env, self.o.fn, strip(self.params))
                            for k in ('threads', 'draws', 'draw_log', 'defer_threads'):
                                if k in env.__dict__: setattr(env, k, {'threads': 2, 'draws': {}, 'draw_log': [], 'defer_threads': 'first'}[k])
                            if not made: self.inconcl.append("no call on other data could be made"); raise PathAbort("history")
                        self.o.fn(env, **strip(self.params))
                finally:
                    sys.setprofile(None)
                completed += 1
                self.add_witness(env)
            except CheckFailed: pass
            except PathAbort: ctx.stats.infeasible += 1
            except Unsupported as e:
                self.inconcl.append(f"outside the encoding: {e} [{where(e)}]")
            except RecursionError as e:
                self.inconcl.append("recursion limit")
            except UninitError as e:
                try: self.candidate(env, f"reads uninitialised memory ({e})", None)
                except (CheckFailed, PathAbort): pass
            except Exception as e:
                if in_repo(e) or self.o.opts.get('raise_any'):
                    try: self.candidate(env, f"raises {type(e).__name__}: {str(e)[:120]} [{where(e)}]", None)
                    except (CheckFailed, PathAbort): pass
                else:
                    self.inconcl.append(f"harness error {type(e).__name__}: {str(e)[:200]} [{where(e)}]")
            for i in range(len(prefix), len(ctx.taken)):
                v, alt = ctx.taken[i]
                head = [t[0] for t in ctx.taken[:i]]
                if isinstance(alt, tuple):
                    for kk in range(alt[1]):
                        if kk != v: stack.append(head + [kk])
                elif alt:
                    stack.append(head + [not v])
            if len({c['msg'] for c in self.cands}) >= 4 or len(self.cands) >= 10: complete = False; break
        return completed, complete

    def add_witness(self, env):
        if len(self.witness) >= self.maxwit: return
        conds = self.ctx.base_pc + self.ctx.pc
        a = self.concretise(conds, None, quick=True, strict=True)
        if a is None: return
        obs = []
        cache = {}
        for k, v in env.obs:
            try:
                if isinstance(v, SymReal): obs.append(['r', core.eval_poly(v.p, a, cache)])
                elif isinstance(v, SymBool): obs.append(['b', core.eval_bool(v, a, cache)])
                elif k == 'b': obs.append(['b', bool(v)])
                else: obs.append(['r', float(v)])
            except Exception:
                obs.append(['?', None])
        self.witness.append({'asg': a, 'choices': env.choices, 'obs': obs})


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if f.filename.startswith(loader.SRC): return f"{os.path.relpath(f.filename, loader.SRC)}:{f.lineno}"
    f = tb[-1]
    return f"{os.path.basename(f.filename)}:{f.lineno}"


def in_repo(e):
    """the exception was raised by (or below) repository code"""
    tb = traceback.extract_tb(e.__traceback__)
    from . import llvm
    return any(f.filename.startswith(loader.SRC) for f in tb) or isinstance(e, (ImportError, AttributeError, loader.GlobalRandomUse, llvm.MemError, llvm.CppThrow)) or any(f.name == 'call' and f.filename.endswith('extsym.py') for f in tb)


class CaseTimeout(BaseException): pass


def run_case(o, params, seed, tier, limit):
    t = time.time()
    sys.setrecursionlimit(20000)
    limit = min(limit, o.opts.get('time_s', limit))
    r = Run(o, params, seed, deadline=t + limit, tier=tier)
    import signal
    def late(*a): raise CaseTimeout()
    signal.signal(signal.SIGALRM, late); signal.setitimer(signal.ITIMER_REAL, limit + 20)
    completed, complete = 0, False
    try: completed, complete = r.go()
    except CaseTimeout: r.inconcl.append("time limit inside one path")
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
    st = r.ctx.stats
    files = set()
    for L in r.loaders: files |= set(L.loaded_files)
    return {'ob': o.name, 'params': params, 'paths': st.paths, 'infeasible': st.infeasible, 'completed': completed,
            'complete': complete, 'queries': st.queries, 'sat': st.sat, 'unsat': st.unsat, 'unknown': st.unknown,
            'solver_s': st.solver_s, 'wall_s': time.time() - t, 'discharged': r.discharged, 'cands': r.cands,
            'inconclusive': r.inconcl, 'witness': r.witness, 'funcs': sorted(r.funcs) + sorted(getattr(r, 'extfuncs', [])), 'notes': r.ctx.notes,
            'files': sorted(os.path.relpath(f, loader.REPO) for f in files), 'extinstr': getattr(r, 'extinstr', 0)}


def replay(o, params, asg, choices, extdir):
    """run the obligation on the real code; returns dict"""
    env = RealEnv(asg, choices, extdir)
    st0 = np.random.get_state(); import random as _r; rs0 = _r.getstate()
    out = {'status': 'ok', 'failures': [], 'obs': []}
    try:
        with np.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if params.get('history'):
                    env.hist = True
                    run_history(env, o.fn, strip(params))
                o.fn(env, **strip(params))
    except AssumptionUnmet: out['status'] = 'assumption-unmet'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        out['status'] = 'exception'
        out['exception'] = f"{type(e).__name__}: {str(e)[:200]}"
        out['where'] = f"{tb[-1].filename}:{tb[-1].lineno}"
        out['in_repo'] = any('/src/frds/' in f.filename for f in tb) or isinstance(e, (ImportError, AttributeError))
    finally:
        env.close()
    if o.opts.get('guard_random'):
        s1 = np.random.get_state()
        if not (s1[0] == st0[0] and np.array_equal(s1[1], st0[1]) and s1[2:] == st0[2:]): env.failures.append("numpy's global random state changed")
        if _r.getstate() != rs0: env.failures.append("Python's global random state changed")
    out['failures'] = env.failures
    out['obs'] = [[k, (v if not isinstance(v, (np.floating, np.bool_)) else v.item())] for k, v in env.obs]
    out['checks'] = env.checks
    out['maxdev'] = env.maxdev if math.isfinite(env.maxdev) else 1e308
    return out
