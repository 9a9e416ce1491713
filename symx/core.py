"""Symbolic reals, path exploration and the solver interface.

A SymReal is a polynomial (float coefficients) over *atoms*; atoms are input variables and
applications of sqrt, log, exp, normal cdf/ppf, 1/p and arbitrary named functions, interned so that
equal arguments give the same atom.  Branching on a SymBool forks the execution (re-execution
along a decision list), with feasibility decided by z3.
"""
import math, cmath, random, time, sys
import numbers
import numpy as np

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3

REL = 1e-11       # cancellation tolerance of coefficient arithmetic
CTOL = 1e-9       # coefficient tolerance when comparing polynomials
NPTS = 2          # fingerprint points


class Unsupported(Exception):
    """The engine cannot represent what the code does (inconclusive, never a verdict)."""


class PathAbort(BaseException):
    """Path is infeasible or cut."""


class UninitError(Exception):
    """Code read memory it never wrote."""


# ----------------------------------------------------------------------------- context
class Stats:
    def __init__(self):
        self.paths = 0; self.queries = 0; self.solver_s = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.infeasible = 0


class Ctx:
    """State of one obligation (atoms survive across its paths)."""
    cur = None

    def __init__(self, seed=1):
        self.atoms = []
        self.vars = {}                 # name -> Atom
        self.buckets = {}              # (kind, monkeys) -> [(coeffs, Atom)]
        self.exps = {}                 # exp atom id -> non-integer exponents in use (snapped within 1e-12)
        self.fpbuckets = {}            # kind -> [(fingerprint, Atom)]
        self.rng = random.Random(12345)
        self.pos = set()               # primitive poly keys known positive (declared facts)
        self.stats = Stats()
        self.reset_path([])
        self.base_pc = []
        self.max_decisions = 400
        self.feas_timeout = 400
        self.check_timeout = 8000
        self.zero_div = 'assume'
        self.fork_policy = None
        self.notes = {}
        self.solver_cache = None

    def note(self, k):
        self.notes[k] = self.notes.get(k, 0) + 1

    def reset_path(self, prefix):
        self.prefix = list(prefix)
        self.taken = []                # list of (bool, alternative_feasible)
        self.pc = []                   # SymBool conditions assumed/decided
        self.path_notes = []
        self.solver_cache = None
        self.known = {}
        self.facts = []; self.facts_n = (0, 0)
        self.defs = {}; self.deflens = set()

    # -- atoms
    def new_atom(self, kind, args, name):
        a = Atom(len(self.atoms), kind, args, name)
        self.atoms.append(a)
        return a


class Atom:
    __slots__ = ('id', 'kind', 'args', 'name', 'vals', 'pos', 'lo', 'hi', 'nonneg', 'integer')

    def __init__(self, id, kind, args, name):
        self.id = id; self.kind = kind; self.args = args; self.name = name
        self.vals = None; self.pos = False; self.nonneg = False
        self.lo = None; self.hi = None; self.integer = False

    def __repr__(self):
        if self.kind == 'var': return self.name
        return f"{self.kind if self.kind != 'fn' else self.name}({', '.join(map(poly_str, self.args))})"


# ----------------------------------------------------------------------------- polynomials: dict {monomial: coeff}; monomial = tuple((atom_id, exp),...)
ONE = ()


def p_const(c):
    return {ONE: c} if c != 0 else {}


def p_add(a, b, sb=1.0):
    if not b: return a
    r = dict(a)
    for m, c in b.items():
        c = c * sb
        o = r.get(m)
        if o is None:
            r[m] = c
        else:
            s = o + c
            if abs(s) <= REL * max(abs(o), abs(c)):
                del r[m]
            else:
                r[m] = s
    return r


def p_scale(a, k):
    if k == 0: return {}
    return {m: c * k for m, c in a.items()}


def m_mul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for i, e in m2:
        n = d.get(i, 0) + e
        if n == 0 or (isinstance(n, float) and abs(n) < 1e-12):
            d.pop(i, None)
        else:
            if isinstance(n, float) and abs(n - round(n)) < 1e-12: n = int(round(n))
            d[i] = n
    return tuple(sorted(d.items()))


def m_needs_reduce(m):
    at = Ctx.cur.atoms
    for i, e in m:
        a = at[i]
        if a.kind == 'sqrt':
            if e != 1: return i
        elif a.kind == 'inv':
            if e < 0: return i
    return None


MAXTERMS = 60000


def p_mul(a, b):
    if len(a) > len(b): a, b = b, a
    if not a: return {}
    if len(a) == 1 and ONE in a: return p_scale(b, a[ONE])
    if len(a) * len(b) > MAXTERMS * 10: raise Unsupported(f"polynomial product too large ({len(a)} x {len(b)})")
    r = {}
    big = {}
    red = []
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            c = c1 * c2
            o = r.get(m)
            if o is None: r[m] = c; big[m] = abs(c)
            else:
                r[m] = o + c
                if abs(c) > big[m]: big[m] = abs(c)
    out = {}
    for m, c in r.items():
        if abs(c) <= REL * big[m]: continue
        i = m_needs_reduce(m)
        if i is None: out[m] = c
        else: red.append((m, c, i))
    for m, c, i in red:
        out = p_add(out, m_reduce(m, c, i))
    return out


def m_reduce(m, c, i):
    """rewrite sqrt(p)^k and inv(p)^-k inside a monomial"""
    a = Ctx.cur.atoms[i]
    e = dict(m)[i]
    rest = tuple(x for x in m if x[0] != i)
    base = {rest: c}
    j = m_needs_reduce(rest)
    if j is not None: base = m_reduce(rest, c, j)
    if a.kind == 'sqrt':
        q, s = divmod(e, 2)
        r = p_pow(a.args[0], q)
        if s: r = p_mul(r, {((i, 1),): 1.0})
        return p_mul(base, r)
    # inv with negative exponent
    return p_mul(base, p_pow(a.args[0], -e))


def p_pow(p, n):
    if n == 0: return p_const(1.0)
    if n < 0: return p_pow(p_inv(p), -n)
    r = None
    b = p
    while n:
        if n & 1: r = b if r is None else p_mul(r, b)
        n >>= 1
        if n: b = p_mul(b, b)
    return r


def p_content(p):
    """p = c * m * q with q primitive (leading coefficient 1, no common monomial)."""
    ms = list(p)
    common = dict(ms[0])
    for m in ms[1:]:
        if not common: break
        d = dict(m)
        for i in list(common):
            e = d.get(i)
            if e is None:
                # treat missing as 0: common exponent min(e,0)
                if common[i] > 0: del common[i]
            else:
                common[i] = min(common[i], e)
                if common[i] == 0: del common[i]
        for i, e in m:
            if e < 0 and i not in common:
                # exponent absent (0) in an earlier monomial, negative here
                common[i] = e
    # ensure min over all including zero-exponent ones
    for i in list(common):
        mn = min(dict(m).get(i, 0) for m in ms)
        if mn == 0: del common[i]
        else: common[i] = mn
    at = Ctx.cur.atoms
    for i in list(common):
        if at[i].kind == 'sqrt':   # do not divide by sqrt atoms (keeps exponents in {0,1})
            if common[i] < 0: del common[i]
    mono = tuple(sorted(common.items()))
    if mono:
        inv = tuple((i, -e) for i, e in mono)
        q = {}
        for m, c in p.items(): q[m_mul(m, inv)] = c
    else:
        q = p
    lead = min(q) if True else None
    c = q[lead]
    if c != 1.0: q = {m: v / c for m, v in q.items()}
    return c, mono, q


def p_close(a, b, tol=CTOL):
    if len(a) != len(b): return False
    for m, c in a.items():
        o = b.get(m)
        if o is None or abs(o - c) > tol * max(abs(o), abs(c)): return False
    return True


def intern(kind, q, name=None):
    """atom kind(q) with tolerance and (semantic) fingerprint matching"""
    ctx = Ctx.cur
    args = q if isinstance(q, list) else [q]
    key = (kind, name, tuple(tuple(sorted(x)) for x in args))
    b = ctx.buckets.setdefault(key, [])
    for cs, a in b:
        if all(p_close(x, y) for x, y in zip(cs, args)): return a
    # semantic match: same value at the fingerprint points and provably equal
    fp = [p_vals(x) for x in args]
    fb = ctx.fpbuckets.setdefault((kind, name, len(args)), [])
    for f0, a in fb:
        if all(fp_close(u, v) for u, v in zip(f0, fp)):
            if all(p_prove_zero(p_add(x, y, -1.0)) for x, y in zip(args, a.args)):
                b.append((args, a))
                return a
    a = ctx.new_atom(kind, args, name)
    a.vals = atom_vals(a)
    if kind in ('exp',): a.pos = True
    if kind in ('cdf',): a.pos = True; a.hi = 1.0
    if kind == 'sqrt':
        a.nonneg = True
        if p_sign(args[0]) == 1: a.pos = True
    if kind == 'inv' and p_sign(args[0]) == 1: a.pos = True
    b.append((args, a)); fb.append((fp, a))
    return a


def fp_close(u, v):
    return all(abs(x - y) <= 1e-7 * max(1e-9, abs(x), abs(y)) or (x != x and y != y) for x, y in zip(u, v))


def _ncdf(z):
    if isinstance(z, complex):
        if abs(z.imag) < 1e-12 * (1 + abs(z.real)): z = z.real
        else: return cmath.sin(z) * 0.37 + 0.11   # arbitrary odd-ish surrogate for fingerprints off the real line
    return 0.5 * math.erfc(-z / math.sqrt(2))


def _nppf(p):
    from statistics import NormalDist
    return NormalDist().inv_cdf(p)


def atom_vals(a):
    out = []
    for k in range(NPTS):
        try:
            xs = [p_vals(q)[k] for q in a.args]
            out.append(atom_eval(a, xs))
        except (ValueError, ZeroDivisionError, OverflowError):
            out.append(float('nan'))
    return out


def atom_eval(a, xs):
    x = xs[0] if xs else None
    if isinstance(x, complex) and x.imag == 0: x = x.real
    if a.kind == 'inv': return 1.0 / x
    if a.kind == 'sqrt': return cmath.sqrt(x) if isinstance(x, complex) or x < 0 else math.sqrt(x)
    if a.kind == 'log': return cmath.log(x) if isinstance(x, complex) or x < 0 else math.log(x)
    if a.kind == 'exp': return cmath.exp(x) if isinstance(x, complex) else math.exp(x)
    if a.kind == 'cdf': return _ncdf(x)
    if a.kind == 'ppf':
        if isinstance(x, complex) or not 0 < x < 1: return cmath.sin(x) * 1.7
        return _nppf(x)
    if a.kind == 'def': return x
    if a.kind == 'fn':
        import hashlib
        # uninterpreted function: pseudo-random smooth combination
        h = int(hashlib.md5(a.name.encode()).hexdigest()[:8], 16) / 2**32
        s = h
        for j, v in enumerate(xs): s = s + cmath.sin(v * (1.3 + 0.7 * h + 0.31 * j)) * (1 + j)
        return s
    raise Unsupported(a.kind)


def p_vals(p):
    at = Ctx.cur.atoms
    out = []
    for k in range(NPTS):
        s = 0.0
        for m, c in p.items():
            v = c
            for i, e in m:
                x = at[i].vals[k]
                try:
                    v = v * (x ** e)
                except (ZeroDivisionError, OverflowError):
                    v = float('nan')
            s = s + v
        out.append(s)
    return out


def p_inv(p):
    """1/p as a polynomial"""
    if not p: raise ZeroDivisionError("symbolic division by identically zero polynomial")
    if len(p) == 1:
        (m, c), = p.items()
        if not m: return p_const(1.0 / c)
        r = {}
        im = tuple((i, -e) for i, e in m)
        i = m_needs_reduce(im)
        if i is None: return {im: 1.0 / c}
        return m_reduce(im, 1.0 / c, i)
    c, m, q = p_content(p)
    if len(q) == 1: return p_mul(p_inv({m: c}), p_inv(q))
    a = intern('inv', q)
    r = {((a.id, 1),): 1.0 / c}
    if m: r = p_mul(r, p_inv({m: 1.0}))
    return r


def p_div_exact(a, b):
    """a/b if b divides a exactly (multivariate division, lex leading term); else None"""
    if not a: return {}
    if len(b) == 1: return p_mul(a, p_inv(b))
    if len(a) > 4000 or len(b) > 200: return None
    # quick filter: all exponents nonnegative
    lb = max(b); cb = b[lb]; lbd = dict(lb)
    q = {}
    r = dict(a)
    big = max(abs(c) for c in a.values())
    steps = 0
    while r:
        steps += 1
        if steps > 3 * len(a) + 50: return None
        lr = max(r)
        d = dict(lr)
        for i, e in lbd.items():
            n = d.get(i, 0) - e
            if n < 0 and e > 0: return None
            if n == 0: d.pop(i, None)
            else: d[i] = n
        t = tuple(sorted(d.items()))
        c = r[lr] / cb
        q[t] = q.get(t, 0.0) + c
        sub = {}
        for m, cm in b.items():
            mm = m_mul(m, t)
            if m_needs_reduce(mm) is not None: return None
            sub[mm] = cm * c
        r.pop(lr)
        for m, cm in sub.items():
            if m == lr: continue
            o = r.get(m, 0.0)
            s = o - cm
            if abs(s) <= 1e-10 * max(abs(o), abs(cm)): r.pop(m, None)
            else: r[m] = s
    # verify
    chk = p_add(p_mul(q, b), a, -1.0)
    if any(abs(c) > 1e-9 * big for c in chk.values()): return None
    return q


def clear_denominators(p, rounds=12):
    """Multiply p by all inverse-atoms' polynomials and monomial denominators, until none is left (zero-ness preserving)."""
    at = Ctx.cur.atoms
    for _ in range(rounds):
        mx = {}
        neg = {}
        for m in p:
            for i, e in m:
                if at[i].kind == 'inv':
                    if e > mx.get(i, 0): mx[i] = e
                elif isinstance(e, int) and e < 0:
                    if e < neg.get(i, 0): neg[i] = e
        if not mx and not neg: return p
        if neg:
            mono = tuple(sorted((i, -e) for i, e in neg.items()))
            p = p_mul(p, {mono: 1.0})
        if mx:
            # process one inverse atom at a time, the highest id first (outermost)
            i = max(mx)
            K = mx[i]
            base = at[i].args[0]
            groups = {}
            for m, c in p.items():
                e = dict(m).get(i, 0)
                rest = tuple(x for x in m if x[0] != i)
                groups.setdefault(K - e, {})[rest] = c
            out = {}
            pw = p_const(1.0)
            for k in range(0, K + 1):
                if k in groups:
                    t = p_mul(groups[k], pw)
                    if len(t) > MAXTERMS: raise Unsupported("denominator clearing too large")
                    out = p_add(out, t)
                if k < K: pw = p_mul(pw, base)
            p = out
        if not p: return p
    return p


def p_is_negligible(p, scale):
    return all(abs(c) <= 1e-9 * scale for c in p.values())


def p_prove_zero(p, allow_z3=False):
    """True if p is identically zero by normalisation (coefficient tolerance)."""
    if not p: return True
    scale = max(abs(c) for c in p.values())
    v = p_vals(p)
    # fingerprint: compare against sum of magnitudes
    at = Ctx.cur.atoms
    for k in range(NPTS):
        mag = 0.0
        for m, c in p.items():
            t = abs(c)
            for i, e in m: t = t * abs(at[i].vals[k]) ** e if abs(at[i].vals[k]) > 0 else t
            mag += t
        if v[k] == v[k] and abs(v[k]) > 1e-7 * mag: return False
    try:
        q = clear_denominators(p)
    except Unsupported:
        return False
    if not q: return True
    # residual coefficients negligible relative to the magnitude seen while expanding
    return p_is_negligible(q, q_scale(p, q))


def q_scale(p, q):
    return max([abs(c) for c in p.values()] + [0.0]) if q else 1.0


# ---------------------------------------------------------------- sign knowledge (global, syntactic)
def p_sign(p):
    """+1 if certainly > 0, -1 if certainly < 0, None otherwise (uses declared facts only)"""
    if not p: return 0
    at = Ctx.cur.atoms
    s = None
    for m, c in p.items():
        t = 1 if c > 0 else -1
        strict = True
        for i, e in m:
            a = at[i]
            if a.pos: continue
            if a.nonneg or (isinstance(e, int) and e % 2 == 0):
                strict = False; continue
            t = None; break
        if t is None: s = 'x'; break
        if s is None: s = [t, strict]
        elif s[0] != t: s = 'x'; break
        elif strict: s[1] = True
    if s == 'x':
        if Ctx.cur.pos:
            k = p_key(p)
            if k in Ctx.cur.pos: return 1
            k = p_key(p_scale(p, -1.0))
            if k in Ctx.cur.pos: return -1
        return None
    return s[0] if s[1] else None


def path_facts():
    """[(poly, strict)]: polys known > 0 (or >= 0) on this path, from conjunctive conditions"""
    ctx = Ctx.cur
    n = (len(ctx.base_pc), len(ctx.pc))
    if n != ctx.facts_n:
        if n[0] != ctx.facts_n[0]: ctx.facts = []; new = ctx.base_pc + ctx.pc
        else: new = ctx.pc[ctx.facts_n[1]:]
        todo = list(new)
        while todo:
            c = todo.pop()
            if not isinstance(c, SymBool): continue
            if c.k == 'and': todo.extend(c.a)
            elif c.k == 'rel' and c.b in ('<', '<='): ctx.facts.append((p_scale(c.a, -1.0), c.b == '<'))
        ctx.facts_n = n
    return ctx.facts


def corner_sign(p):
    """(sign, strict) of a polynomial that is linear in each of up to 4 box-bounded inputs: its sign at every corner of
    the box, the other factors being of known sign"""
    if not 2 <= len(p) <= 300: return None
    at = Ctx.cur.atoms
    box = {}
    for m in p:
        for i, e in m:
            a = at[i]
            if a.kind == 'var' and a.lo is not None and a.hi is not None and box.get(i, 1) == 1: box[i] = 1 if e == 1 else 2
    # only the inputs that monomials of the minority sign depend on
    pos = [m for m, c in p.items() if c > 0]; neg = [m for m, c in p.items() if c < 0]
    small = pos if len(pos) < len(neg) else neg
    use = {i for i, e in box.items() if e == 1 and any(i == j for m in small for j, _ in m)}
    if not use or len(use) > 4: return None
    use = sorted(use)
    res = None
    for bits in range(1 << len(use)):
        val = {i: (at[i].hi if bits >> k & 1 else at[i].lo) for k, i in enumerate(use)}
        q = {}
        for m, c in p.items():
            mm = []
            for i, e in m:
                if i in val: c = c * val[i]
                else: mm.append((i, e))
            mm = tuple(mm); q[mm] = q.get(mm, 0.0) + c
        q = {m: c for m, c in q.items() if abs(c) > 1e-12}
        if not q: r = (1, False) if res is None else (res[0], False)
        else:
            sg = p_sign(q)
            if sg: r = (sg, True)
            elif p_nonneg(q): r = (1, False)
            elif p_nonneg(p_scale(q, -1.0)): r = (-1, False)
            else: return None
        if res is None: res = r
        elif res[0] != r[0]: return None
        else: res = (res[0], res[1] and r[1])
    return res


def _sgn2(p):
    s = p_sign(p)
    if s: return s, True
    if not p: return 1, False
    if p_nonneg(p): return 1, False
    if p_nonneg(p_scale(p, -1.0)): return -1, False
    return None


def p_sign_path(p):
    """(sign, strict) of p on this path: declared facts plus one path condition, or None"""
    r = _sgn2(p) or corner_sign(p)
    if r: return r
    facts = path_facts()
    if not facts or len(p) > 200: return None
    r = _fact_sign(p, facts)
    if r: return r
    c, m, q = p_content(p)
    if m and not (len(q) == 1 and ONE in q):
        r2 = _sgn2({m: c})
        if r2 and r2[1]:
            r = _sgn2(q) or _fact_sign(q, facts)
            if r: return r[0] * r2[0], r[1]
    return None


def _fact_sign(p, facts):
    n = len(p)
    for f, strict in reversed(facts[-60:]):
        tried = []
        for m, c in f.items():
            o = p.get(m)
            if o is None: continue
            k = o / c
            if any(abs(k - t) <= 1e-9 * abs(t) for t in tried): continue
            tried.append(k)
            if len(tried) > 6: break
            d = {}
            for mm in set(p) | set(f):
                x = p.get(mm, 0.0); y = k * f.get(mm, 0.0)
                v = x - y
                if abs(v) > 1e-11 * max(abs(x), abs(y)): d[mm] = v
            r = _sgn2(d)
            if r is None: continue
            if k > 0 and (r[0] > 0 or not d): return 1, strict or (r[1] and bool(d))
            if k < 0 and (r[0] < 0 or not d): return -1, strict or (r[1] and bool(d))
    return None


def p_nonneg(p):
    at = Ctx.cur.atoms
    for m, c in p.items():
        if c < 0: return p_sign(p) == 1
        for i, e in m:
            a = at[i]
            if not (a.pos or a.nonneg or (isinstance(e, int) and e % 2 == 0)): return p_sign(p) == 1
    return True


def p_key(p):
    # scale-invariant (positive scaling) rounded key
    if not p: return ()
    lead = min(p)
    s = abs(p[lead])
    return tuple(sorted((m, float('%.9g' % (c / s))) for m, c in p.items()))


def poly_str(p, maxn=8):
    at = Ctx.cur.atoms
    if not p: return "0"
    out = []
    for n, (m, c) in enumerate(sorted(p.items())):
        if n >= maxn: out.append(f"...({len(p)} terms)"); break
        s = "*".join((repr(at[i]) if e == 1 else f"{at[i]!r}^{e}") for i, e in m)
        out.append(f"{c:.6g}" + ("*" + s if s else ""))
    return " + ".join(out)


# ---------------------------------------------------------------- numeric evaluation under an assignment
class EvalError(Exception): pass


def eval_poly(p, asg, cache=None):
    """value of p with variables given by name in asg (true functions)."""
    if cache is None: cache = {}
    s = 0.0
    for m, c in p.items():
        v = c
        for i, e in m:
            v *= eval_atom(Ctx.cur.atoms[i], asg, cache) ** e
        s += v
    return s


def eval_atom(a, asg, cache):
    if a.id in cache:
        return cache[a.id]
    if a.kind == 'var':
        v = asg[a.name]
    else:
        xs = [eval_poly(q, asg, cache) for q in a.args]
        v = atom_eval(a, xs)
        if isinstance(v, complex):
            if abs(v.imag) > 1e-12: raise EvalError("complex")
            v = v.real
    cache[a.id] = v
    return v


# ---------------------------------------------------------------- SymReal
def is_num(x):
    return isinstance(x, (int, float, np.floating, np.integer, np.bool_)) and not isinstance(x, SymReal)


def _co(x):
    """coerce operand -> ('s', poly) or ('f', float) or None"""
    if isinstance(x, SymReal): return x
    if isinstance(x, SymBool): return float(bool(x))
    if isinstance(x, (bool, np.bool_)): return float(x)
    if isinstance(x, (int, float, np.floating, np.integer)): return float(x)
    if isinstance(x, numbers.Rational): return float(x)
    if isinstance(x, complex): return x
    if isinstance(x, np.ndarray) and x.ndim == 0: return _co(x.item())
    return None


def mk(p, fac=None):
    if not p: return np.float64(0.0)
    n = len(p)
    if n == 1 and ONE in p: return np.float64(p[ONE])
    ctx = Ctx.cur
    if ctx.defs and n in ctx.deflens:
        d = ctx.defs.get(p_key(p))
        if d is not None:
            lead = min(p)
            k = p[lead] / d[0][lead] if lead in d[0] else 0
            if k > 0 and p_close(p, p_scale(d[0], k)): return SymReal({((d[1], 1),): k})
    return SymReal(p, fac)


def expand_defs(p, depth=40):
    """p with named intermediate values replaced by their definitions"""
    at = Ctx.cur.atoms
    for _ in range(depth):
        if not any(at[i].kind == 'def' and isinstance(e, int) and e > 0 for m in p for i, e in m): return p
        out = {}
        for m, c in p.items():
            t = {tuple((i, e) for i, e in m if not (at[i].kind == 'def' and isinstance(e, int) and e > 0)): c}
            for i, e in m:
                if at[i].kind == 'def' and isinstance(e, int) and e > 0: t = p_mul(t, p_pow(at[i].args[0], e))
            out = p_add(out, t)
        p = out
    return p


def same_expanded(p, q):
    """p == q, with as few named values replaced by their definitions as needed (newest first)"""
    at = Ctx.cur.atoms
    d = p_add(p, q, -1.0)
    while True:
        if p_prove_zero(d): return True
        ids = {i for m in d for i, e in m if at[i].kind == 'def' and isinstance(e, int) and e > 0}
        if not ids: return False
        top = max(ids); out = {}
        for m, c in d.items():
            e = dict(m).get(top)
            if e is None: out = p_add(out, {m: c})
            else: out = p_add(out, p_mul({tuple(t for t in m if t[0] != top): c}, p_pow(at[top].args[0], e)))
        d = out


def define(x):
    """name an intermediate value: wherever this value (as a polynomial) is computed again on the path, the name stands for it"""
    if not isinstance(x, SymReal) or len(x.p) < 3: return x
    ctx = Ctx.cur
    p = x.p
    k = p_key(p)
    if k in ctx.defs: return mk(p)
    s = p_sign_path(p)
    a = intern('def', p, name=tuple(t[0] for t in ctx.taken))
    if s and s[0] > 0:
        a.nonneg = True
        if s[1]: a.pos = True
    ctx.defs[k] = (p, a.id); ctx.deflens.add(len(p))
    return SymReal({((a.id, 1),): 1.0})


class SymReal:
    __slots__ = ('p', 'fac')
    __array_priority__ = 1000

    def __init__(self, p, fac=None):
        self.p = p
        self.fac = fac     # optional list of (poly, exp): product form

    # numpy looks these up on object elements
    def conjugate(self): return self
    conj = conjugate

    @property
    def real(self): return self
    @property
    def imag(self): return np.float64(0.0)
    @property
    def T(self): return self
    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self): return np.dtype(np.float64)
    def item(self): return self
    def copy(self): return self
    def astype(self, t, *a, **k): return self
    def squeeze(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def sum(self, *a, **k): return self
    def clip(self, min=None, max=None, **k):
        r = self
        if min is not None: r = s_max(min, r)
        if max is not None: r = s_min(max, r)
        return r
    def is_integer(self): raise Unsupported("is_integer of symbolic real")
    def as_integer_ratio(self): raise Unsupported("as_integer_ratio of symbolic real")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        from . import npshim
        return npshim.array_function(func, types, args, kw)

    def factors(self):
        return self.fac if self.fac is not None else [(self.p, 1)]

    # arithmetic
    def __neg__(self): return SymReal(p_scale(self.p, -1.0), None)
    def __pos__(self): return self

    def __add__(self, o):
        o = _co(o)
        if o is None: return NotImplemented
        if isinstance(o, SymReal): return mk(p_add(self.p, o.p))
        if isinstance(o, complex): raise Unsupported("complex")
        if o != o or o in (math.inf, -math.inf): return np.float64(o)
        return mk(p_add(self.p, p_const(o)))
    __radd__ = __add__

    def __sub__(self, o):
        o = _co(o)
        if o is None: return NotImplemented
        if isinstance(o, SymReal): return mk(p_add(self.p, o.p, -1.0))
        if o != o or o in (math.inf, -math.inf): return np.float64(-o)
        return mk(p_add(self.p, p_const(-o)))

    def __rsub__(self, o):
        o = _co(o)
        if o is None: return NotImplemented
        if o != o or o in (math.inf, -math.inf): return np.float64(o)
        return mk(p_add(p_scale(self.p, -1.0), p_const(o)))

    def __mul__(self, o):
        o = _co(o)
        if o is None: return NotImplemented
        if isinstance(o, SymReal):
            fac = None
            if len(self.p) > 1 or len(o.p) > 1 or self.fac or o.fac:
                fac = self.factors() + o.factors()
                if len(fac) > 12: fac = None
            return mk(p_mul(self.p, o.p), fac)
        if o != o: return np.float64(o)
        if o in (math.inf, -math.inf):
            if bool(self > 0): return np.float64(o)
            if bool(self < 0): return np.float64(-o)
            return np.float64('nan')
        return mk(p_scale(self.p, o), (self.fac + [(p_const(o), 1)]) if self.fac and o != 0 else None)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _co(o)
        if o is None: return NotImplemented
        if isinstance(o, SymReal): return s_div(self, o)
        if o != o: return np.float64(o)
        if o in (math.inf, -math.inf): return np.float64(0.0)
        if o == 0:
            if bool(self > 0): return np.float64('inf')
            if bool(self < 0): return np.float64('-inf')
            return np.float64('nan')
        return self * (1.0 / o)

    def __rtruediv__(self, o):
        o = _co(o)
        if o is None: return NotImplemented
        if o != o: return np.float64(o)
        if o in (math.inf, -math.inf):
            return np.float64(o) if bool(self > 0) else np.float64(-o)
        return s_div(np.float64(o), self)

    def __pow__(self, o, mod=None):
        return NotImplemented if _co(o) is None else s_pow(self, o)

    def __rpow__(self, o):
        return NotImplemented if _co(o) is None else s_pow(o, self)

    def __floordiv__(self, o): return s_floor(self / o)
    def __rfloordiv__(self, o): return s_floor(o / self)
    def __mod__(self, o): return self - s_floor(self / o) * o

    def __abs__(self):
        s = p_sign_path(self.p)
        if s: return self if s[0] > 0 else -self
        return -self if bool(self < 0) else self

    # comparisons
    def _cmp(self, o, op):
        o = _co(o)
        if o is None: return NotImplemented
        if isinstance(o, float):
            if o != o: return op == '!='
            if o == math.inf: return op in ('<', '<=', '!=')
            if o == -math.inf: return op in ('>', '>=', '!=')
            d = p_add(self.p, p_const(-o))
        else:
            d = p_add(self.p, o.p, -1.0)
        return rel(d, op)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o):
        if o is None or isinstance(o, str): return False
        return self._cmp(o, '==')
    def __ne__(self, o):
        if o is None or isinstance(o, str): return True
        return self._cmp(o, '!=')
    def __hash__(self): return hash(p_key(self.p))
    def __bool__(self): return bool(self != 0)

    # numpy object-ufunc methods / math
    def sqrt(self): return s_sqrt(self)
    def log(self): return s_log(self)
    def exp(self): return s_exp(self)
    def __float__(self): raise Unsupported("float() of a symbolic real")
    def __int__(self): return s_trunc(self)
    def __index__(self): raise TypeError("'float' object cannot be interpreted as an integer")
    def __trunc__(self): return s_trunc(self)
    def __floor__(self): return s_floor_int(self)
    def __ceil__(self): return s_ceil_int(self)
    def __round__(self, n=None):
        raise Unsupported("round of a symbolic real")
    def __repr__(self): return f"<{poly_str(self.p)}>"
    __str__ = __repr__
    def __format__(self, spec):
        if FORMATTED is None: return repr(self)
        FORMATTED.append((self, spec))
        return f"\u27e6{len(FORMATTED) - 1}\u27e7"


FORMATTED = None      # a list while a check wants to know which values were formatted into text


def s_div(a, b):
    """a / b; b symbolic"""
    ctx = Ctx.cur
    bp = b.p
    sg = p_sign_path(bp)
    if ctx.zero_div == 'fork' and (sg is None or not sg[1]):
        if bool(b == 0):
            if not isinstance(a, SymReal):
                if a == 0 or a != a: return np.float64('nan')
                return np.float64('inf') if a > 0 else np.float64('-inf')
            if bool(a == 0): return np.float64('nan')
            return np.float64('inf') if bool(a > 0) else np.float64('-inf')
    elif sg is None or not sg[1]:
        ctx.note('denominators assumed non-zero')
    if not isinstance(a, SymReal):
        if a != a: return np.float64(a)
        if a in (math.inf, -math.inf): return np.float64(a) if bool(b > 0) else np.float64(-a)
        if a == 0: return np.float64(0.0)
        fac = [(q, -e) for q, e in b.factors()]
        return mk(p_scale(p_inv_f(b), float(a)), fac if a == 1 else fac + [(p_const(float(a)), 1)])
    fac = a.factors() + [(q, -e) for q, e in b.factors()]
    if len(fac) > 12: fac = None
    if len(bp) > 1 and len(a.p) > 1:
        q = p_div_exact(a.p, bp)
        if q is not None: return mk(q, None)
    return mk(p_mul(a.p, p_inv_f(b)), fac)


def p_inv_f(b):
    if b.fac and len(b.p) > 1:
        r = p_const(1.0)
        for q, e in b.fac:
            r = p_mul(r, p_pow(q, -e))
        return r
    return p_inv(b.p)


def s_pow(a, b):
    a = _co(a); b = _co(b)
    if a is None or b is None: raise Unsupported("pow operand")
    if not isinstance(b, SymReal):
        if b != b: return np.float64('nan')
        if not isinstance(a, SymReal):
            with np.errstate(all='ignore'): return np.float64(a) ** np.float64(b)
        if b == int(b) and abs(b) <= 64:
            n = int(b)
            if n >= 0:
                fac = [(q, e * n) for q, e in a.factors()] if len(a.p) > 1 and n > 1 else None
                return mk(p_pow(a.p, n), fac)
            return s_div(np.float64(1.0), s_pow(a, -n)) if n < -1 else s_div(np.float64(1.0), a)
        if abs(b * 2 - round(b * 2)) < 1e-15 and abs(b) <= 32:
            return s_pow(s_sqrt(a), int(round(b * 2)))
        return s_exp(s_log(a) * b)
    # symbolic exponent
    if not isinstance(a, SymReal):
        if a == 1: return np.float64(1.0)
        if a > 0: return s_exp(b * math.log(a))
        raise Unsupported("non-positive constant to a symbolic power")
    return s_exp(b * s_log(a))


def _factor_pos(x):
    """list of (primitive factor poly, exp) and constant c such that x = c*prod, using monomials and product provenance; None if signs unknown"""
    out = []
    c = 1.0
    for q, e in (x.fac if x.fac else [(x.p, 1)]):
        cc, m, prim = p_content(q)
        c *= cc ** e
        for i, k in m: out.append(({((i, 1),): 1.0}, k * e))
        if not (len(prim) == 1 and ONE in prim): out.append((prim, e))
    return c, out


def s_sqrt(x):
    if not isinstance(x, SymReal):
        with np.errstate(all='ignore'): return np.sqrt(np.float64(x))
    sg = p_sign_path(x.p)
    if sg is None or sg[0] != 1:
        if bool(x < 0): return np.float64('nan')
    # product split when every factor has a known sign
    c, fs = _factor_pos(x)
    comb = {}
    for q, e in fs:
        k = p_key(q)
        if k in comb: comb[k][1] += e
        else: comb[k] = [q, e]
    ok = True
    neg = 1.0 if c > 0 else -1.0
    parts = []
    for q, e in comb.values():
        if isinstance(e, float): ok = False; break
        if e % 2 == 0: parts.append((q, e, None)); continue
        s = p_sign_path(q)
        if s is None: ok = False; break
        s = s[0]
        if s == -1: neg = -neg
        parts.append((q, e, s))
    if ok and neg > 0:
        r = mk(p_const(math.sqrt(abs(c))))
        for q, e, s in parts:
            if s is None:
                base = mk(q)
                r = r * s_pow(abs(base), e // 2) if e >= 0 else r / s_pow(abs(base), (-e) // 2)
            else:
                qq = q if s == 1 else p_scale(q, -1.0)
                a = sqrt_atom(qq)
                t = p_pow(a, abs(e))
                r = r * mk(t) if e > 0 else (r / mk(t))
        return r
    cc, m, q = p_content(x.p)
    return mk(p_scale(sqrt_atom(p_scale(x.p, 1.0 / abs(cc))), math.sqrt(abs(cc))))


def sqrt_atom(q):
    """poly for sqrt(q), q primitive"""
    if len(q) == 1:
        (m, c), = q.items()
        if not m: return p_const(math.sqrt(c))
        if len(m) == 1:
            (i, e), = m
            a0 = Ctx.cur.atoms[i]
            if a0.kind == 'exp' :
                return {((i, e / 2 if (e % 2 if isinstance(e, int) else True) else e // 2),): math.sqrt(c)}
            if e == 1 and c == 1:
                a = intern('sqrt', q); return {((a.id, 1),): 1.0}
            if isinstance(e, int) and e % 2 == 0 and a0.pos: return {((i, e // 2),): math.sqrt(c)}
    sq = p_sqrt_exact(q)
    if sq is not None:
        return sq
    a = intern('sqrt', q)
    return {((a.id, 1),): 1.0}


def p_sqrt_exact(q):
    """perfect square of a known-sign polynomial (2- or 3-term shapes common in practice)"""
    if len(q) != 3 and len(q) != 6: return None
    # try (a+b)^2 / (a+b+c)^2 from square monomials
    sq = [(m, c) for m, c in q.items() if c > 0 and all(isinstance(e, int) and e % 2 == 0 for _, e in m)]
    n = 2 if len(q) == 3 else 3
    if len(sq) < n: return None
    import itertools
    for comb in itertools.combinations(sq, n):
        roots = [({tuple((i, e // 2) for i, e in m): math.sqrt(c)}) for m, c in comb]
        for signs in itertools.product([1.0, -1.0], repeat=n - 1):
            r = roots[0]
            for s, t in zip(signs, roots[1:]): r = p_add(r, t, s)
            if p_close(p_mul(r, r), q):
                s = p_sign(r)
                if s == 1 or p_nonneg(r): return r
                if s == -1: return p_scale(r, -1.0)
                # |r|: fork
                v = mk(r)
                return (-v).p if bool(v < 0) else r
    return None


def s_log(x):
    if not isinstance(x, SymReal):
        with np.errstate(all='ignore'): return np.log(np.float64(x))
    sg = p_sign_path(x.p)
    if sg == (-1, True): return np.float64('nan')
    if sg != (1, True):
        if Ctx.cur.zero_div == 'fork':
            if bool(x <= 0):
                return np.float64('-inf') if bool(x == 0) else np.float64('nan')
        else:
            if bool(x < 0): return np.float64('nan')
            Ctx.cur.note('logarithm arguments assumed non-zero')
    c, fs = _factor_pos(x)
    ok = True; neg = 1.0 if c > 0 else -1.0
    parts = []; odd = None
    for q, e in fs:
        s = p_sign_path(q)
        if s is None:
            # the sign of a single unknown factor follows from x > 0
            if odd is not None or e % 2 == 0: ok = False; break
            odd = (q, e); continue
        s = s[0]
        if s == -1 and e % 2: neg = -neg
        parts.append((p_scale(q, float(s)), e))
    if ok and odd is not None and len(fs) > 1:
        parts.append((p_scale(odd[0], neg), odd[1])); neg = 1.0
    elif odd is not None: ok = False
    if ok and neg > 0:
        r = mk(p_const(math.log(abs(c))))
        for q, e in parts: r = r + mk(log_prim(q)) * e
        return r
    cc, m, q = p_content(x.p)
    return mk(p_add(p_const(math.log(abs(cc))), log_prim(p_scale(x.p, 1.0 / abs(cc)))))


def log_prim(q):
    """poly of log(q), q > 0"""
    if len(q) == 1:
        (m, c), = q.items()
        if len(m) == 1:
            (i, e), = m
            a = Ctx.cur.atoms[i]
            if a.kind == 'exp':
                return p_add(p_scale(a.args[0], float(e)), p_const(math.log(c)))
            if a.kind == 'sqrt':
                return p_add(p_scale(log_poly(a.args[0]), 0.5 * e), p_const(math.log(c)))
            if a.kind == 'inv':
                return p_add(p_scale(log_poly(a.args[0]), -1.0 * e), p_const(math.log(c)))
        elif not m:
            return p_const(math.log(c))
    cc = q[min(q)]
    out = p_const(math.log(abs(cc))) if abs(cc) != 1 else {}
    qq = q if abs(cc) == 1 else p_scale(q, 1.0 / abs(cc))
    a = intern('log', qq)
    return p_add(out, {((a.id, 1),): 1.0})


def log_poly(p):
    r = s_log(mk(p))
    return r.p if isinstance(r, SymReal) else p_const(float(r))


def s_exp(x):
    if not isinstance(x, SymReal):
        with np.errstate(all='ignore'): return np.exp(np.float64(x))
    r = p_const(1.0)
    at = Ctx.cur.atoms
    for m, c in x.p.items():
        if not m:
            r = p_scale(r, math.exp(c)); continue
        if len(m) == 1 and m[0][1] == 1 and at[m[0][0]].kind == 'log':
            arg = at[m[0][0]].args[0]
            k = round(c)
            if abs(c - k) < 1e-12:
                r = p_mul(r, p_pow(arg, int(k))); continue
            k2 = round(2 * c)
            if abs(2 * c - k2) < 1e-12:
                s = s_pow(s_sqrt(mk(arg)), int(k2))
                r = p_mul(r, s.p if isinstance(s, SymReal) else p_const(float(s))); continue
        a = intern('exp', {m: 1.0})
        e = c
        if abs(e - round(e)) < 1e-12: e = int(round(e))
        else:
            used = Ctx.cur.exps.setdefault(a.id, [])
            for u in used:
                if abs(u - e) <= 1e-12 * max(1.0, abs(e)): e = u; break
            else: used.append(e)
        r = p_mul(r, {((a.id, e),): 1.0})
    return mk(r)


def s_cdf(x):
    if not isinstance(x, SymReal): return np.float64(_ncdf(float(x)))
    p = x.p
    # canonical sign by fingerprint of leading monomial
    c = p[min(p)]
    if len(p) == 1:
        (m, cc), = p.items()
        if len(m) == 1 and m[0][1] == 1 and Ctx.cur.atoms[m[0][0]].kind == 'ppf' and abs(cc - 1) < 1e-12:
            return mk(Ctx.cur.atoms[m[0][0]].args[0])
    # look for an existing atom of -x first (semantic match), then of x
    v = p_vals(p)
    neg = None
    s = v[0].real if isinstance(v[0], complex) else v[0]
    if s < 0:
        a = intern('cdf', p_scale(p, -1.0)); return np.float64(1.0) - mk({((a.id, 1),): 1.0})
    a = intern('cdf', p)
    return mk({((a.id, 1),): 1.0})


def s_ppf(x):
    if not isinstance(x, SymReal):
        return np.float64(_nppf(float(x)))
    a = intern('ppf', x.p)
    return mk({((a.id, 1),): 1.0})


def s_fn(name, *args):
    """uninterpreted function application"""
    ps = [x.p if isinstance(x, SymReal) else p_const(float(x)) for x in args]
    a = intern('fn', ps, name)
    return mk({((a.id, 1),): 1.0})


def s_max(a, b):
    if is_num(a) and is_num(b):
        if a != a or b != b: return np.float64('nan')
        return a if a >= b else b
    if is_num(a) and a != a: return a
    if is_num(b) and b != b: return b
    return a if bool(a >= b) else b


def s_min(a, b):
    if is_num(a) and is_num(b):
        if a != a or b != b: return np.float64('nan')
        return a if a <= b else b
    if is_num(a) and a != a: return a
    if is_num(b) and b != b: return b
    return a if bool(a <= b) else b


def var_range(p):
    """crude numeric range of poly from variable bounds"""
    at = Ctx.cur.atoms
    lo = hi = 0.0
    for m, c in p.items():
        l, h = c, c
        for i, e in m:
            a = at[i]
            al = a.lo if a.lo is not None else (0.0 if (a.pos or a.nonneg) else -math.inf)
            ah = a.hi if a.hi is not None else math.inf
            if not isinstance(e, int) or e < 0: al, ah = (0.0 if (a.pos or a.nonneg) else -math.inf), math.inf
            elif e % 2 == 0 and al < 0:
                ah = max(abs(al), abs(ah)) ** e; al = 0.0
            else:
                al, ah = (al ** e if abs(al) != math.inf else al), (ah ** e if ah != math.inf else ah)
            c4 = [_m(l, al), _m(l, ah), _m(h, al), _m(h, ah)]
            l, h = min(c4), max(c4)
        lo += l; hi += h
    return lo, hi


def _m(a, b):
    if a == 0 or b == 0: return 0.0
    return a * b


def s_floor_int(x):
    if not isinstance(x, SymReal): return math.floor(x)
    lo, hi = var_range(x.p)
    if not (math.isfinite(lo) and math.isfinite(hi)) or hi - lo > 2000:
        # only the part [-2, 2) of the values is followed; the rest is reported as outside the encoding
        if not (bool(x < 2) and bool(x >= -2)): raise Unsupported("floor of unbounded symbolic real")
        l, h = -2, 1
    else: l, h = math.floor(lo), math.floor(hi)
    while l < h:         # binary search by forking
        mid = (l + h) // 2
        if bool(x < mid + 1): h = mid
        else: l = mid + 1
    return l


def s_ceil_int(x):
    if not isinstance(x, SymReal): return math.ceil(x)
    return -s_floor_int(-x)


def s_trunc(x):
    if not isinstance(x, SymReal): return int(x)
    return s_floor_int(x) if bool(x >= 0) else s_ceil_int(x)


def s_floor(x):
    return np.float64(s_floor_int(x))


# ---------------------------------------------------------------- SymBool
def rel(d, op):
    """d op 0 -> SymBool or bool"""
    if not d or (len(d) == 1 and ONE in d):
        c = d.get(ONE, 0.0)
        return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]
    r = p_sign_path(d)
    if r:
        s, strict = r
        if strict: return {'<': s < 0, '<=': s < 0, '>': s > 0, '>=': s > 0, '==': False, '!=': True}[op]
        if s > 0 and op in ('<', '>='): return op == '>='
        if s < 0 and op in ('>', '<='): return op == '<='
    if op in ('>', '>='): return SymBool('rel', p_scale(d, -1.0), '<' if op == '>' else '<=')
    return SymBool('rel', d, op)


class SymBool:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a, b=None):
        self.k = k; self.a = a; self.b = b

    def __bool__(self): return decide(self)
    def __invert__(self): return s_not(self)
    def __and__(self, o): return s_and(self, o)
    __rand__ = __and__
    def __or__(self, o): return s_or(self, o)
    __ror__ = __or__
    def __xor__(self, o): return bool(self) ^ bool(o)
    __rxor__ = __xor__
    def __int__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __index__(self): return int(bool(self))
    def __add__(self, o): return int(bool(self)) + o
    __radd__ = __add__
    def __mul__(self, o): return int(bool(self)) * o
    __rmul__ = __mul__
    def __sub__(self, o): return int(bool(self)) - o
    def __rsub__(self, o): return o - int(bool(self))
    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool, int)): return bool(self) == bool(o)
        return NotImplemented
    def __ne__(self, o): return not self == o
    def __hash__(self): return id(self)
    def all(self, *a, **k): return bool(self)
    def any(self, *a, **k): return bool(self)
    def item(self): return bool(self)
    def astype(self, t): return t(bool(self))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        inputs = [np.bool_(bool(i)) if isinstance(i, SymBool) else i for i in inputs]
        return getattr(ufunc, method)(*inputs, **kw)

    def __repr__(self):
        if self.k == 'rel': return f"({poly_str(self.a)} {self.b} 0)"
        if self.k == 'not': return f"!{self.a!r}"
        return f" {self.k} ".join(map(repr, self.a))


def s_not(c):
    if not isinstance(c, SymBool): return not c
    if c.k == 'rel':
        if c.b == '<': return SymBool('rel', p_scale(c.a, -1.0), '<=')
        if c.b == '<=': return SymBool('rel', p_scale(c.a, -1.0), '<')
        if c.b == '==': return SymBool('rel', c.a, '!=')
        return SymBool('rel', c.a, '==')
    if c.k == 'not': return c.a
    if c.k == 'and': return SymBool('or', [s_not(x) for x in c.a])
    return SymBool('and', [s_not(x) for x in c.a])


def s_and(*cs):
    out = []
    for c in cs:
        if isinstance(c, SymBool): out.append(c)
        elif not c: return False
    if not out: return True
    return out[0] if len(out) == 1 else SymBool('and', out)


def s_or(*cs):
    out = []
    for c in cs:
        if isinstance(c, SymBool): out.append(c)
        elif c: return True
    if not out: return False
    return out[0] if len(out) == 1 else SymBool('or', out)


def eval_bool(c, asg, cache=None, slack=0.0):
    if not isinstance(c, SymBool): return bool(c)
    if cache is None: cache = {}
    if c.k == 'rel':
        v = eval_poly(c.a, asg, cache)
        if v != v: raise EvalError("nan")
        return {'<': v < -slack, '<=': v <= -slack, '==': v == 0 if slack == 0 else abs(v) < 1e-12, '!=': v != 0}[c.b]
    if c.k == 'and': return all(eval_bool(x, asg, cache, slack) for x in c.a)
    if c.k == 'or': return any(eval_bool(x, asg, cache, slack) for x in c.a)
    return not eval_bool(c.a, asg, cache, slack)


# ---------------------------------------------------------------- z3 encoding
def frac(c):
    """decimal float as exact z3 rational"""
    if c == int(c) and abs(c) < 1e15: return z3.RealVal(int(c))
    return z3.RealVal(repr(float(c)) if 'e' not in repr(float(c)) else _dec(c))


def _dec(c):
    from fractions import Fraction
    f = Fraction(repr(float(c)))
    return f"{f.numerator}/{f.denominator}"


class Enc:
    """encodes polys/bools into z3 with definitional axioms for the atoms used"""

    def __init__(self, digits=12):
        self.digits = digits
        self.v = {}
        self.ax = []
        self.exps = []      # (argpoly z3, var)
        self.logs = []
        self.cdfs = []
        self.ppfs = []
        self.expkey = {}
        self.nmono = 0

    def atom(self, i):
        if i in self.v: return self.v[i]
        a = Ctx.cur.atoms[i]
        x = z3.Real(f"a{i}")
        self.v[i] = x
        if a.kind == 'var':
            if a.pos: self.ax.append(x > 0)
            elif a.nonneg: self.ax.append(x >= 0)
            if a.lo is not None: self.ax.append(x >= frac(a.lo))
            if a.hi is not None: self.ax.append(x <= frac(a.hi))
        elif a.kind == 'inv':
            self.ax.append(x * self.poly(a.args[0]) == 1)
        elif a.kind == 'sqrt':
            self.ax.append(x >= 0); self.ax.append(x * x == self.poly(a.args[0]))
        elif a.kind == 'log':
            q = self.poly(a.args[0])
            self.ax.append(q > 0)
            self.ax.append(z3.And((x > 0) == (q > 1), (x < 0) == (q < 1), x <= q - 1))
            for q2, x2 in self.logs[-6:]: self.ax.append((x < x2) == (q < q2)); self.ax.append((x == x2) == (q == q2))
            self.logs.append((q, x))
        elif a.kind == 'cdf':
            q = self.poly(a.args[0])
            self.ax.append(z3.And(x > 0, x < 1, (x > frac(0.5)) == (q > 0), (x == frac(0.5)) == (q == 0)))
            for q2, x2 in self.cdfs[-6:]: self.ax.append((x < x2) == (q < q2)); self.ax.append((x == x2) == (q == q2))
            self.cdfs.append((q, x))
        elif a.kind == 'ppf':
            q = self.poly(a.args[0])
            for q2, x2 in self.ppfs[-6:]: self.ax.append((x < x2) == (q < q2)); self.ax.append((x == x2) == (q == q2))
            self.ppfs.append((q, x))
        elif a.kind == 'def':
            if a.pos: self.ax.append(x > 0)
            elif a.nonneg: self.ax.append(x >= 0)
            if len(a.args[0]) <= 40: self.ax.append(x == self.poly(a.args[0]))
        elif a.kind == 'fn':
            pass
        elif a.kind == 'exp':
            pass
        return x

    def expvar(self, combo):
        """combo: tuple((atom_id, exp)) product of exp atoms -> one variable exp(total)"""
        if combo in self.expkey: return self.expkey[combo]
        x = z3.Real("e_" + "_".join(f"{i}~{e}" for i, e in combo))
        self.expkey[combo] = x
        tot = {}
        for i, e in combo: tot = p_add(tot, p_scale(Ctx.cur.atoms[i].args[0], float(e)))
        q = self.poly(tot)
        self.ax.append(z3.And(x > 0, (x > 1) == (q > 0), (x < 1) == (q < 0), x >= 1 + q))
        for q2, x2 in self.exps[-6:]: self.ax.append((x < x2) == (q < q2))
        self.exps.append((q, x))
        return x

    def poly(self, p):
        ts = []
        at = Ctx.cur.atoms
        self.nmono += len(p)
        if self.nmono > 6000: raise Unsupported("query too large")
        for m, c in p.items():
            t = None
            combo = tuple((i, e) for i, e in m if at[i].kind == 'exp')
            fs = []
            if combo: fs.append(self.expvar(combo))
            den = None
            for i, e in m:
                if at[i].kind == 'exp': continue
                x = self.atom(i)
                if not isinstance(e, int): raise Unsupported("non-integer power in query")
                if e < 0:
                    y = self.invvar(i)
                    fs.extend([y] * (-e))
                else:
                    fs.extend([x] * e)
            for f in fs: t = f if t is None else t * f
            if self.digits: c = float('%.*g' % (self.digits, c))
            if t is None: t = frac(c)
            elif c != 1: t = frac(c) * t
            ts.append(t)
        if not ts: return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def invvar(self, i):
        k = ('inv', i)
        if k in self.v: return self.v[k]
        y = z3.Real(f"i{i}")
        self.v[k] = y
        self.ax.append(y * self.atom(i) == 1)
        return y

    def boolean(self, c):
        if not isinstance(c, SymBool): return z3.BoolVal(bool(c))
        if c.k == 'rel':
            p = c.a
            q = self.poly(p)
            return {'<': q < 0, '<=': q <= 0, '==': q == 0, '!=': q != 0}[c.b]
        if c.k == 'and': return z3.And([self.boolean(x) for x in c.a])
        if c.k == 'or': return z3.Or([self.boolean(x) for x in c.a])
        return z3.Not(self.boolean(c.a))


def solve(conds, timeout=None, model=False, extra=None):
    """sat/unsat/unknown of the conjunction of SymBools"""
    ctx = Ctx.cur
    e = Enc()
    try:
        fs = [e.boolean(c) for c in conds]
    except (Unsupported, OverflowError):
        ctx.stats.queries += 1; ctx.stats.unknown += 1
        return ('unknown', None) if model else 'unknown'
    s = z3.Solver() if True else None
    s.set('timeout', int(timeout or ctx.check_timeout))
    if extra: fs += extra(e)
    s.add(*e.ax); s.add(*fs)
    t = time.time()
    r = s.check()
    ctx.stats.solver_s += time.time() - t
    ctx.stats.queries += 1
    res = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
    setattr(ctx.stats, res, getattr(ctx.stats, res) + 1)
    if model:
        return res, (s.model(), e) if res == 'sat' else None
    return res


def solver_equal(x, y, timeout):
    """z3's verdict on x = y (two polynomials), coefficients read to 12 digits"""
    ctx = Ctx.cur
    e = Enc(digits=12)
    try: f = e.poly(x) != e.poly(y)
    except (Unsupported, OverflowError): return 'unknown'
    s = z3.Solver()
    s.set('timeout', int(timeout))
    s.add(*e.ax); s.add(f)
    t = time.time()
    r = s.check()
    ctx.stats.solver_s += time.time() - t
    ctx.stats.queries += 1
    res = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
    setattr(ctx.stats, res, getattr(ctx.stats, res) + 1)
    return res


def decide(c):
    """fork on a symbolic condition"""
    ctx = Ctx.cur
    k = bkey(c)
    if k in ctx.known: return ctx.known[k]
    if c.k == 'rel':
        r = rel(c.a, c.b)
        if not isinstance(r, SymBool): return bool(r)
        lo, hi = var_range(c.a)
        if lo == lo and hi == hi and (lo > -math.inf or hi < math.inf):
            mg = 1e-9 * sum(abs(x) for x in c.a.values())
            if lo > mg: return c.b == '!='
            if hi < -mg: return c.b != '=='
    n = len(ctx.taken)
    if n < len(ctx.prefix):
        v = ctx.prefix[n]
        ctx.taken.append((v, None))
    else:
        if n >= ctx.max_decisions: raise Unsupported("too many branch decisions on one path")
        v = None
        if ctx.fork_policy is not None:
            v = ctx.fork_policy(c)
        if v is not None:
            ctx.taken.append((v, False))
        else:
            pc = ctx.base_pc + ctx.pc
            ft = solve(pc + [c], ctx.feas_timeout) != 'unsat'
            nc = s_not(c)
            ff = True if not ft else solve(pc + [nc], ctx.feas_timeout) != 'unsat'
            if not ft and not ff: raise PathAbort("infeasible")
            v = ft
            ctx.taken.append((v, ft and ff))
    cond = c if v else s_not(c)
    ctx.pc.append(cond)
    ctx.known[k] = v
    ctx.known[bkey(s_not(c))] = not v
    return v


def bkey(c):
    if c.k == 'rel': return (c.b, p_key(c.a))
    if c.k == 'not': return ('not', bkey(c.a))
    return (c.k, tuple(bkey(x) if isinstance(x, SymBool) else x for x in c.a))


def choose(n, label=''):
    """nondeterministic choice in range(n) (all alternatives explored)"""
    ctx = Ctx.cur
    k = len(ctx.taken)
    if k < len(ctx.prefix): v = ctx.prefix[k]
    else: v = 0
    ctx.taken.append((v, ('choice', n)))
    ctx.path_notes.append((label, v))
    return v


def sym(name, pos=False, nonneg=False, lo=None, hi=None):
    ctx = Ctx.cur
    a = ctx.vars.get(name)
    if a is None:
        a = ctx.new_atom('var', [], name)
        ctx.vars[name] = a
        r = ctx.rng
        vals = []
        for _ in range(NPTS):
            if lo is not None and hi is not None: v = lo + (hi - lo) * (0.1 + 0.8 * r.random())
            elif lo is not None: v = lo + 0.3 + 1.5 * r.random()
            elif hi is not None: v = hi - 0.3 - 1.5 * r.random()
            elif pos or nonneg: v = 0.3 + 1.5 * r.random()
            else: v = (0.3 + 1.5 * r.random()) * r.choice([-1, 1])
            vals.append(v)
        a.vals = vals
        a.pos = pos or (lo is not None and lo > 0)
        a.nonneg = nonneg or a.pos or (lo is not None and lo >= 0)
        a.lo, a.hi = lo, hi
    return SymReal({((a.id, 1),): 1.0})
