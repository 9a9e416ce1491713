"""Stand-in for scipy.optimize.minimize: records the problem it is given and returns a solution chosen by the check.
Contract used: on return, fun is the objective at x; x satisfies the bounds and constraints; the objective has been
evaluated at other points, before and after."""
import math


class Problem:
    def __init__(self, fun, x0, args, bounds, constraints, method=None):
        self.args = args if isinstance(args, tuple) else (args,)
        self.fun, self.x0, self.method = fun, x0, method
        self.bounds = self.norm_bounds(bounds)
        self.constraints = self.norm_constraints(constraints)

    @staticmethod
    def norm_bounds(b):
        """list of (lower or None, upper or None)"""
        if b is None: return None
        if hasattr(b, 'lb'):
            lb, ub = list(b.lb), list(b.ub)
            b = list(zip(lb, ub))
        out = []
        for lo, hi in b:
            out.append((None if lo is None or lo == -math.inf else lo, None if hi is None or hi == math.inf else hi))
        return out

    @staticmethod
    def norm_constraints(c):
        """list of functions g with g(x) >= 0 required"""
        if c is None: return []
        if isinstance(c, dict) or not isinstance(c, (list, tuple)): c = [c]
        out = []
        for d in c:
            if isinstance(d, dict):
                a = d.get('args', ())
                if d['type'] == 'ineq': out.append(lambda x, d=d, a=a: d['fun'](x, *a))
                elif d['type'] == 'eq': out.append(lambda x, d=d, a=a: -(d['fun'](x, *a) ** 2))
                else: raise ValueError(f"unknown constraint type {d['type']!r}")
            elif hasattr(d, 'A'):     # LinearConstraint
                import numpy as np
                A = np.atleast_2d(np.asarray(d.A, dtype=float)); lb = np.broadcast_to(np.asarray(d.lb, dtype=float), (len(A),)); ub = np.broadcast_to(np.asarray(d.ub, dtype=float), (len(A),))
                for r, l, u in zip(A, lb, ub):
                    if l > -math.inf: out.append(lambda x, r=r, l=l: sum(float(r[i]) * x[i] for i in range(len(r))) - float(l))
                    if u < math.inf: out.append(lambda x, r=r, u=u: float(u) - sum(float(r[i]) * x[i] for i in range(len(r))))
            else:                     # NonlinearConstraint with scalar limits
                if d.lb > -math.inf: out.append(lambda x, d=d: d.fun(x) - d.lb)
                if d.ub < math.inf: out.append(lambda x, d=d: d.ub - d.fun(x))
        return out

    def objective(self, x): return self.fun(x.copy() if hasattr(x, 'copy') else x, *self.args)

    def limits(self, x):
        """conditions (lists of SymBool/bool) that x has to satisfy"""
        out = []
        for i, (lo, hi) in enumerate(self.bounds or []):
            if lo is not None: out.append(x[i] >= lo)
            if hi is not None: out.append(x[i] <= hi)
        for g in self.constraints:
            v = g(x)
            if hasattr(v, '__len__'): out += [v[i] >= 0 for i in range(len(v))]
            else: out.append(v >= 0)
        return out


def stub(env, handler):
    """patches scipy.optimize.minimize; handler(problem) -> (x, fun value, success)"""
    from scipy.optimize import OptimizeResult
    calls = []

    def minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
        p = Problem(fun, x0, args, bounds, constraints, method)
        calls.append(p)
        x, f, ok = handler(p)
        return OptimizeResult(x=x.copy() if hasattr(x, 'copy') else x, fun=f, success=ok, status=0 if ok else 8, message='', nit=1, nfev=1, njev=1)
    env.patch('scipy.optimize', 'minimize', minimize)
    return calls


def feasible_equiv(env, p, x, must, may, msg):
    """every x satisfying `must` satisfies the problem's limits; every x satisfying the limits satisfies `may`"""
    lim = p.limits(x)
    if all(env.is_true(c) for c in must):
        for c in lim: env.check(c, f'{msg}: a point the model allows is excluded')
    elif all(env.is_true(c) for c in lim):
        for c in may: env.check(c, f'{msg}: a point outside the model is allowed')
    else: env.ok()
