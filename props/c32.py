"""C32 isolation forest scores follow their trees"""
from symx.harness import ob, IFOREST
from props import iforestspec as S

EX = dict(ext=True, exts=[IFOREST], max_paths=20000, time_s=600)
TABLES = {'num2': (2, ['n']), 'num3': (3, ['n']), 'miss3': (3, ['m1']), 'miss3b': (3, ['m02']), 'miss4': (4, ['m12']), 'two3': (3, ['n', 'm0']),
          'str3': (3, [('b', 'a', 'bb')]), 'full3': (3, [('ba', 'bc', 'ab')]), 'str4': (4, [('ab', 'c', 'ab', 'ba')]), 'mix3': (3, ['m2', ('ab', 'b', 'aa')]),
          'num4': (4, ['n']), 'strnum2': (2, ['n', ('xy', 'x')])}
Q = [('num2', 2, 1), ('num2', 4, 1), ('num3', 2, 1), ('num3', 3, 1), ('miss3', 2, 1), ('miss3', 3, 1), ('miss3b', 2, 1), ('miss3b', 4, 1), ('str3', 2, 1), ('full3', 2, 1), ('full3', 3, 1), ('str4', 2, 1), ('str4', 3, 1),
     ('strnum2', 2, 1), ('miss4', 2, 1)]
T = [('two3', 2, 1), ('two3', 3, 1), ('mix3', 2, 1), ('mix3', 3, 1), ('num4', 2, 1), ('num4', 3, 1), ('miss4', 3, 1), ('miss4', 4, 1), ('num2', 2, 2), ('miss3', 2, 2), ('full3', 2, 2)]
P = lambda xs: [dict(table=t, tree_size=s, forest=f) for t, s, f in xs]


@ob('C32', quick=P(Q), thorough=P(Q + T), bounds='tables of 2-4 rows and 1-2 columns (numbers arbitrary, stated missing cells, stated strings, also cells filled to their width), tree sizes 2-4, 1-2 trees, every random draw', **EX)
def scores(env, table, tree_size, forest):
    n, cols = TABLES[table]
    M = S.setup(env)
    cols = S.table(env, n, cols)
    got, index, columns = S.parts(env, M.anomaly_scores(S.frame(env, cols, list(range(10, 10 + n))), forest_size=forest, tree_size=tree_size, random_seed=3))
    env.check(len(got) == n, 'one score per row')
    env.check(index == list(range(10, 10 + n)), 'rows in input order')
    one = S.Oracle(env, cols, n, tree_size).vectors()
    vs = one
    for _ in range(forest - 1): vs = sorted({tuple(a + b for a, b in zip(v, w)) for v in vs for w in one})
    L = S.lengths(got, forest, tree_size)
    want = S.nearest(vs, L)
    env.eq(env.asarray(got), env.asarray([2 ** (-x / forest / S.c(tree_size)) for x in want]), 'scores of a forest that the growing rule allows')


@ob('C32', quick=[dict(exclude=0), dict(exclude=1)], bounds='2 rows, numeric and string columns in any order', **EX)
def options(env, exclude):
    """excluded columns are ignored whatever they hold; column order does not matter; name, index, keyword defaults"""
    M = S.setup(env)
    x = env.vec('x', 2)
    env.assume(x[0] < x[1])
    cols = [('key', 's', ['p', 'qq']), ('v', 'n', [x[0], x[1]])]
    ex = ['key'] if exclude else None
    r = M.anomaly_scores(S.frame(env, cols, ['r1', 'r2']), forest_size=1, tree_size=2, exclude_cols=ex, name='A')
    got, index, columns = S.parts(env, r)
    env.check(columns == ['A'] and index == ['r1', 'r2'], 'name and index')
    vs = S.Oracle(env, cols[exclude:], 2, 2).vectors()
    env.eq(env.asarray(got), env.asarray([2 ** (-v / S.c(2)) for v in S.nearest(vs, S.lengths(got, 1, 2))]), 'scores')
    got, index, columns = S.parts(env, M.anomaly_scores(S.frame(env, cols, ['r1', 'r2']), forest_size=1, tree_size=2, exclude_cols=ex))
    env.check(columns == ['AnomalyScore'], 'default name')
