"""Reference formulas of the GARCH family, written from the documentation (used by C01-C14)."""


def bound(env, v, lo, up, ties=True):
    """documented adjustment of one variance; returns value (ties: also values exactly on a bound)"""
    if not ties: env.assume((v - lo) * (v - lo) > 0)
    if env.is_true(v < lo): v = lo
    if env.is_true(v > up):
        v = up + env.log(v / up)
    return v


def garch(env, params, e, backcast, vb, name=lambda v: v, ties=True):
    omega, alpha, beta = params
    s = [name(omega + (alpha + beta) * backcast)]
    for t in range(1, len(e)):
        v = omega + alpha * e[t - 1] * e[t - 1] + beta * s[-1]
        s.append(name(bound(env, v, vb[t][0], vb[t][1], ties) if vb is not None else v))
    return s


def gjr(env, params, e, backcast, vb, first=None, name=lambda v: v, ties=True):
    omega, alpha, gamma, beta = params
    s = [omega + (alpha + gamma / 2 + beta) * backcast if first is None else first]
    for t in range(1, len(e)):
        v = omega + alpha * e[t - 1] * e[t - 1] + beta * s[-1]
        if env.is_true(e[t - 1] < 0): v = v + gamma * e[t - 1] * e[t - 1]
        s.append(name(bound(env, v, vb[t][0], vb[t][1], ties) if vb is not None else v))
    return s


def weights(n):
    w = [0.94 ** i for i in range(n)]
    t = sum(w)
    return [x / t for x in w]


def backcast(e):
    n = min(75, len(e))
    return sum(w * e[i] * e[i] for i, w in enumerate(weights(n)))


def ewma(e, v0, lam):
    v = [v0]
    for t in range(1, len(e)): v.append(lam * v[-1] + (1 - lam) * e[t - 1] * e[t - 1])
    return v


def mean(x):
    return sum(x[i] for i in range(len(x))) / len(x)


def var(x):
    m = mean(x)
    return sum((x[i] - m) * (x[i] - m) for i in range(len(x))) / len(x)


def loglik(env, e, v):
    import math
    return sum(-0.5 * (math.log(2 * math.pi) + env.log(v[t]) + e[t] * e[t] / v[t]) for t in range(len(e)))


def var_bounds(env, e):
    T = len(e)
    b = ewma(e, backcast(e), 0.94)
    glo = var(e) / 1e8
    m = e[0] * e[0]
    for t in range(1, T): m = env.max(m, e[t] * e[t])
    gup = 1e7 * (1 + m)
    out = []
    for x in b:
        x = env.max(x, glo)
        x = env.min(x, gup)
        out.append((x / 1e6, x * 1e6))
    return out


def params(env, names, **k):
    return [env.real(n, **k) for n in names]


def corr(env, x, y):
    mx, my = mean(x), mean(y); n = len(x)
    cxy = sum((x[i] - mx) * (y[i] - my) for i in range(n))
    return cxy / env.sqrt(sum((x[i] - mx) * (x[i] - mx) for i in range(n))) / env.sqrt(sum((y[i] - my) * (y[i] - my) for i in range(n)))


def dcc(env, z1, z2, a, b, qb=None, psd=False):
    """documented DCC correlations from standardised residuals; (1, 1, qbar) is the unconditional correlation matrix.
    psd: also derive (as facts) that every Q_t is positive semi-definite"""
    w = 1 - a - b; D = env.define
    n = len(z1)
    given = qb is not None
    if not given:
        qb = D(corr(env, z1, z2))
        if psd:
            m1, m2 = mean(z1), mean(z2)
            x = [z - m1 for z in z1]; y = [z - m2 for z in z2]
            vx, vy, cxy = (sum(u * v for u, v in zip(p, q)) for p, q in ((x, x), (y, y), (x, y)))
            c2 = [[x[i] * y[j] - x[j] * y[i]] * 2 for i in range(n) for j in range(i)]
            # Cauchy-Schwarz: vx*vy - cxy^2 is a sum of squares; so (sqrt(vx)*sqrt(vy) - cxy)*(sqrt(vx)*sqrt(vy) + cxy) >= 0
            env.lemma_pos(c2, 'Cauchy-Schwarz', also=[vx * vy - cxy * cxy])
            env.prove_fact(qb <= 1, [vx * vy - cxy * cxy >= 0], 'sample correlation'); env.prove_fact(qb >= -1, [vx * vy - cxy * cxy >= 0], 'sample correlation')
    q1, q2, q12 = 1.0, 1.0, qb
    if psd: det = env.lemma_pos([[1 - qb, 1 + qb]], also=[1 - qb * qb])
    rho = [qb]; Q = [(q1, q2, q12)]
    for t in range(1, n):
        x, y = z1[t - 1], z2[t - 1]
        p1, p2, p12 = q1, q2, q12
        q1 = env.lemma_pos([[w], [a, x, x], [b, p1]])
        q2 = env.lemma_pos([[w], [a, y, y], [b, p2]])
        q12 = w * qb + a * x * y + b * p12
        d1, d2, d12 = D(q1), D(q2), D(q12)
        if psd:
            def form(u, v): return [[1 / p1, p1 * v - p12 * u, p1 * v - p12 * u], [1 / p1, u, u, det]]      # p2*u^2 + p1*v^2 - 2*p12*u*v
            T = [[w, w, 1 - qb, 1 + qb], [b, b, det], [w, a, (1 - qb) / 2, x + y, x + y], [w, a, (1 + qb) / 2, x - y, x - y]]
            T += [[a, b] + f for f in form(x, y)]
            T += [[w, b, (1 + qb) / 2] + f for f in form(1, 1)] + [[w, b, (1 - qb) / 2] + f for f in form(1, -1)]
            env.lemma_pos(T, 'Q_t positive semi-definite', also=[d1 * d2 - d12 * d12])
            det = d1 * d2 - d12 * d12
        q1, q2, q12 = d1, d2, d12
        rho.append(q12 / env.sqrt(q1 * q2)); Q.append((q1, q2, q12))
    return rho, Q
