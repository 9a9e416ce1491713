"""C14 one LRMES simulation"""
from symx.harness import ob
from props import longspec as L
from props.c03 import EM, SIM, SIMB, lrmes_args, spec_sim, run_sim


def both(L): return [dict(p, ext=x) for p in L for x in (False, True)]


@ob('C14', quick=both(SIM), thorough=both(SIM + [dict(H=3, part='all')]), bounds=SIMB, max_paths=2000, **EM)
def simulation(env, H, part, ext):
    d, pf, pm = lrmes_args(env, H, part)
    ret, ev = spec_sim(env, H, d, pf, pm)
    got = run_sim(env, ext, H, d, pf, pm)
    env.same_flag(got[1], ev, 'systemic event flag')
    env.eq(got[0], ret, 'firm return')


def long_args(env, H):
    """numbers everywhere except the mean returns, the threshold and the innovations of the last day"""
    z = [[L.number(h, 1, -2.0, 2.0), L.number(h, 2, -2.0, 1.5)] for h in range(H)]
    z[-1] = [env.real('zi', lo=-2, hi=2), env.real('zm', lo=-2, hi=2)]
    d = dict(innovation=env.asarray(z), C=env.real('C', lo=-0.9, hi=0.5), firm_var=2.25, mkt_var=1.44, firm_resid=-0.75, mkt_resid=0.6, a=0.0625, b=0.875, rho=0.5,
             Q_bar=env.asarray([[1.0, 0.25], [0.25, 1.0]]))
    par = lambda k, c: dict(zip(('mu', 'omega', 'alpha', 'gamma', 'beta'), (env.real('mu_' + k, lo=-1, hi=1), *c)))
    return d, par('i', (0.5, 0.125, 0.0625, 0.75)), par('m', (0.25, 0.25, 0.03125, 0.5))


@ob('C14', quick=both([dict(H=h) for h in (22, 126)]), thorough=both([dict(H=h) for h in (22, 126, 300)]), bounds='h = 22, 126 (300 thorough): arbitrary mean returns and threshold, any innovations on the last day; the rest are listed numbers', time_s=200, **EM)
def long_horizon(env, H, ext):
    d, pf, pm = long_args(env, H)
    ret, ev = spec_sim(env, H, d, pf, pm)
    got = run_sim(env, ext, H, d, pf, pm)
    env.same_flag(got[1], ev, 'systemic event flag')
    env.eq(got[0], ret, 'firm return')
