"""C33 isolation forest trees use fresh samples and depend on the seed only"""
from symx.harness import ob, IFOREST
from props import iforestspec as S
from props.c32 import TABLES

EX = dict(ext=True, exts=[IFOREST], max_paths=20000, time_s=600)


def run(env, M, cols, n, **kw):
    return S.parts(env, M.anomaly_scores(S.frame(env, cols, list(range(n))), **kw))[0]


@ob('C33', quick=[dict(table='num2', tree_size=2, forest=2), dict(table='num3', tree_size=2, forest=2), dict(table='num2', tree_size=2, forest=3), dict(table='num2', tree_size=4, forest=2), dict(table='str3', tree_size=2, forest=3)],
    thorough=[dict(table='num3', tree_size=3, forest=2), dict(table='miss3', tree_size=2, forest=3), dict(table='str3', tree_size=3, forest=2)],
    bounds='2-3 rows, tree size 2-4, forests of 2-3 trees grown by 2 threads, every random draw', **EX)
def own_tree(env, table, tree_size, forest):
    """the last tree of a forest, isolated by leaving it out, is a tree the growing rule allows on a fresh sample of distinct rows; the other trees are unchanged"""
    n, cols = TABLES[table]
    M = S.setup(env)
    cols = S.table(env, n, cols)
    kw = dict(tree_size=tree_size, random_seed=5)
    L0 = [0.0] * n
    if forest > 1: L0 = S.lengths(run(env, M, cols, n, forest_size=forest - 1, **kw), forest - 1, tree_size)
    L1 = S.lengths(run(env, M, cols, n, forest_size=forest, **kw), forest, tree_size)
    d = [b - a for a, b in zip(L0, L1)]
    want = S.nearest(S.Oracle(env, cols, n, tree_size).vectors(), d)
    env.eq(env.asarray(d), env.asarray(want), 'path lengths of the last tree', scale=1.0)


@ob('C33', quick=[dict(table='num2', forest=2, workers=(1, 2)), dict(table='num2', forest=2, workers=(3, 2)), dict(table='num2', forest=2, workers=(1, 8)), dict(table='num2', forest=1, workers=(0, 1)), dict(table='num3', forest=1, workers=(1, 2)), dict(table='full3', forest=2, workers=(1, 3)), dict(table='str3', forest=3, workers=(2, 3))],
    thorough=[dict(table='num2', forest=3, workers=(1, 3)), dict(table='num3', forest=2, workers=(2, 5)), dict(table='num2', forest=4, workers=(2, 3))],
    bounds='2-3 rows, tree size 2, 1-3 trees (4 thorough), 0 (unknown) to 8 processors, every random draw; threads run in the order they were started and in the reverse order, and no two of them touch the same memory, so that every interleaving gives the same result', **EX)
def workers(env, table, forest, workers):
    """the scores do not depend on the number of processors or on how the threads interleave"""
    n, cols = TABLES[table]
    cols = S.table(env, n, cols)
    M = S.setup(env)
    r = []
    for k, order in zip(workers, ('first', 'reverse')):
        env.workers(k); env.defer_threads = order
        r.append(run(env, M, cols, n, forest_size=forest, tree_size=2, random_seed=4))
    env.eq(env.asarray(r[1]), env.asarray(r[0]), 'scores with another number of processors')


@ob('C33', quick=[dict(table='num2', forest=2), dict(table='str3', forest=1), dict(table='num3', forest=1)], bounds='2-3 rows, tree size 2, 1-2 trees, 2 threads, every random draw; a call with another table, forest and seed between', **EX)
def history(env, table, forest):
    """the same call gives the same scores whatever was called before, in the same or in a new process"""
    n, cols = TABLES[table]
    cols = S.table(env, n, cols)
    M = S.setup(env)
    kw = dict(forest_size=forest, tree_size=2, random_seed=4)
    a = run(env, M, cols, n, **kw)
    y = env.vec('y', 2)
    run(env, M, [('a', 'n', [y[0], y[1]])], 2, forest_size=1, tree_size=2, random_seed=9)
    env.eq(env.asarray(run(env, M, cols, n, **kw)), env.asarray(a), 'scores of the same call repeated')


@ob('C33', quick=[dict(seed=1, n=3), dict(seed=0, n=3), dict(seed=2, n=3)], bounds='3 rows, 2 trees of size 2, seeds 0 to 2', **EX)
def seeds(env, seed, n):
    """every seed can be used, and the trees of one forest use different random sequences"""
    cols = [('a', 'n', [1.0, 2.0, 3.0][:n])]
    M = S.setup(env)
    r = run(env, M, cols, n, forest_size=2, tree_size=2, random_seed=seed)
    env.check(len(r) == n, 'scores')
    env.check(not env.symbolic or len({k[1] if k[0] == 's' else k[0] for k in env.draw_log}) == 2, 'each tree has its own random sequence')
