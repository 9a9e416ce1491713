"""C24 PIN estimation"""
import math
from itertools import product
from symx.harness import ob
from props import longspec as L
from props.optspec import stub, feasible_equiv

GRID = (0.1, 0.3, 0.5, 0.7, 0.9)
M = ('EHO2010', 'LK2011')
B = [1.0, 3.0]; S = [18.0, 22.0]      # every grid point has a non-negative sell rate
N = 125


def pin(env, b=B, s=S): return env.mod('frds.measures').PIN(env.asarray(list(b)), env.asarray(list(s)))


def same(env, a, b): return all(env.is_zero(x - y) for x, y in zip(a, b))


@ob('C24', quick=[dict(method=m) for m in M] + [dict(method=M[0], T=60), dict(method=M[1], T=120)], bounds='two days with any positive counts, or 60 / 120 days arbitrary on four days and listed numbers elsewhere; mean sells not exactly on one of the 25 limits where a grid point starts to be skipped', max_paths=400, time_s=200)
def starts(env, method, T=2):
    b, s = (env.vec(n, 2, lo=0.5, hi=50) if T == 2 else L.mixed(env, n, T, k, 0.5, 50.0) for k, n in enumerate(('buys', 'sells')))
    bb, sb = sum(b) / T, sum(s) / T
    calls = stub(env, lambda p: (list(p.x0), 5.0, False))
    P = pin(env, b, s)
    want = []
    lim = {}
    for a, d, g in product(GRID, GRID, GRID):
        if (d, g) not in lim:
            e = sb - d * (1 - g) * bb / (1 - d)
            env.assume((e > 1e-6) if env.is_true(e > 0) else (e < -1e-6))
            lim[d, g] = env.is_true(e > 0)
        if lim[d, g]:
            mu = (1 - g) * bb / (a * (1 - d))
            want.append((a, d, g * bb, sb - d * (1 - g) * bb / (1 - d), mu))
    P.estimate(method)
    env.check(len(calls) == len(want), f'{len(want)} starting points')
    got = [list(p.x0) for p in calls]
    if len(got) == len(want) and not all(same(env, g, w) for g, w in zip(got, want)):      # another order
        rest = list(want); out = []
        for g in got:
            i = next((i for i, w in enumerate(rest) if same(env, g, w)), None)
            if i is None: break
            rest.pop(i)
        else: got = want
    for k, (g, w) in enumerate(zip(got, want)): env.eq(g, list(w), f'starting point {k}', scale=1e-3)


@ob('C24', quick=[dict(method=m) for m in M], bounds='arbitrary parameter vector; the first start')
def problem(env, method):
    calls = stub(env, lambda p: (list(p.x0), 5.0, False))
    P = pin(env, [2.0, 3.0], [4.0, 1.0]); P.estimate(method)
    x = env.vec('x', 5)
    p = calls[0]
    lim = [x[i] >= 0 for i in range(5)] + [x[i] <= 1 for i in range(2)]
    feasible_equiv(env, p, x, lim, lim, 'parameter bounds')


@ob('C24', quick=[dict(method=m) for m in M], bounds='alpha, delta in [0.01, 0.99], rates in [0.5, 20]; fixed counts', max_paths=3000)
def objective(env, method):
    calls = stub(env, lambda p: (list(p.x0), 5.0, False))
    P = pin(env, [2.0, 3.0], [4.0, 1.0]); P.estimate(method)
    x = [env.real('alpha', lo=0.01, hi=0.99), env.real('delta', lo=0.01, hi=0.99)] + [env.real(n, lo=0.5, hi=20) for n in ('eB', 'eS', 'mu')]
    got = calls[0].objective(env.asarray(list(x)))
    want = getattr(pin(env, [2.0, 3.0], [4.0, 1.0]), 'loglikelihood_' + method)(env.asarray(list(x)))
    env.eq(got, want, 'objective')


def solution(env, name):
    return [env.real(f'{name}_alpha', lo=0, hi=1), env.real(f'{name}_delta', lo=0, hi=1)] + [env.real(f'{name}_{n}', lo=0.5, hi=50) for n in ('eB', 'eS', 'mu')]


def check_report(env, P, r, best, method):
    """best: (x, fun) or None"""
    env.check(bool(P.estimation_success) == (best is not None), f'success flag is {bool(P.estimation_success)}')
    q = P.parameters
    for n in ('alpha', 'delta', 'epsilon_b', 'epsilon_s', 'mu', 'loglikelihood', 'pin'):
        env.eq(getattr(r, n), getattr(q, n), f'returned {n} is the stored one')
    if best is None:
        for n in ('alpha', 'delta', 'epsilon_b', 'epsilon_s', 'mu', 'loglikelihood', 'pin'): env.eq(getattr(q, n), math.nan, f'no estimate: {n}')
        return
    x, f = best
    env.eq([q.alpha, q.delta, q.epsilon_b, q.epsilon_s, q.mu], list(x), 'parameters of the best run')
    env.eq(q.loglikelihood, -f, 'log-likelihood')
    den = x[0] * x[4] + x[2] + x[3]
    env.eq(q.pin, x[0] * x[4] / den, 'PIN')
    env.check(q.pin >= 0, 'PIN >= 0'); env.check(q.pin <= 1, 'PIN <= 1')
    env.check(q.method == method, 'method')


OUT = ('ok', 'ok', 'inf', 'nan', '-inf', 'fail')


def outcomes(env, tag, pos, others):
    """results of the runs: at the positions `pos` arbitrary, elsewhere `others` ('fail' or 'low')"""
    tab = {}
    for i, k in enumerate(pos):
        o = OUT[env.choose(len(OUT) - 1, f'{tag}: outcome of run {k}') + 1]
        x = solution(env, f'{tag}run{i}')
        f = env.real(f'{tag}fun{i}', lo=-100, hi=100) if o in ('ok', 'fail') else float(o)
        tab[k] = (x, f, o)
    return tab


def runs(env, state):
    def handler(p):
        k = state['k']; state['k'] += 1
        if k in state['tab']:
            x, f, o = state['tab'][k]
            return env.asarray(list(x)), f, o != 'fail'
        if state['others'] == 'low': return env.asarray([0.5, 0.5, 1.0, 1.0, 1.0]), 200.0 + k, True
        return env.asarray([0.4, 0.3, 2.0, 3.0, 4.0]), -500.0, False
    stub(env, handler)


def best_of(env, tab, others):
    best = None
    for k in sorted(tab):
        x, f, o = tab[k]
        if o != 'ok': continue
        if best is None or env.is_true(f < best[1]): best = (x, f)
    if best is None and others == 'low':
        k = next(k for k in range(N) if k not in tab)
        best = ([0.5, 0.5, 1.0, 1.0, 1.0], 200.0 + k)
    return best


def distinct(env, tab):
    f = [v[1] for v in tab.values() if v[2] == 'ok']
    for i in range(len(f)):
        for j in range(i): env.assume(f[i] != f[j])


POS = [(0, 1), (0, 124), (62, 63), (1, 124)]


@ob('C24', quick=[dict(method='EHO2010', pos=p, others=o) for p in POS[:2] for o in ('fail', 'low')] + [dict(method='LK2011', pos=p, others='fail') for p in POS[2:]] + [dict(method='EHO2010', pos=(0, 1, 124), others='fail')],
    thorough=[dict(method=m, pos=p, others=o) for m in M for p in POS + [(0, 1, 124), (10, 11, 12), (0, 60, 61, 124)] for o in ('fail', 'low')],
    bounds='two or three runs (listed positions; up to four thorough) with arbitrary outcome: success with any log-likelihood, an infinite or undefined one, or failure; the other runs all fail or all succeed with a lower log-likelihood; no ties', max_paths=4000, time_s=200)
def best(env, method, pos, others):
    state = dict(k=0, tab=outcomes(env, '', pos, others), others=others)
    distinct(env, state['tab'])
    runs(env, state)
    P = pin(env)
    env.check(not P.estimation_success, 'no success before an estimation')
    r = P.estimate(method)
    env.check(state['k'] == N, 'number of runs')
    check_report(env, P, r, best_of(env, state['tab'], others), method)


@ob('C24', quick=[dict(m1='EHO2010', m2='LK2011', others='fail'), dict(m1='LK2011', m2='LK2011', others='fail'), dict(m1='EHO2010', m2='EHO2010', others='low')],
    bounds='two estimations on the same object, one run each with an arbitrary outcome, the other runs fail or succeed with a lower log-likelihood', max_paths=4000, time_s=200)
def again(env, m1, m2, others):
    state = dict(k=0, others=others)
    runs(env, state)
    P = pin(env)
    for t, m in (('first ', m1), ('second ', m2)):
        state.update(k=0, tab=outcomes(env, t, (7,), others))
        r = P.estimate(m)
        check_report(env, P, r, best_of(env, state['tab'], others), m)


@ob('C24', quick=[dict()], bounds='method names')
def method_name(env):
    P = pin(env)
    env.raises(ValueError, lambda: P.estimate('EHO2011'), 'unknown method is refused')
