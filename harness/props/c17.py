import os
import time
import numpy as np
import gen
import treeref

RULE = ('A case grows a forest and predicts a batch of queries (inside, at split values, at training inputs, far outside), '
        'in full, in parts, permuted and one by one, with varying numbers of worker processes and injected delays; all are '
        'compared with an independent walk of the trees. Non-trivial when predictions vary over the batch; distinct by '
        'kind, batch size, number of trees, dimension, workers.')
CASE_LIMIT = 200


def plan(tier):
    k = 2 if tier == 'quick' else 12
    return [('small', 260 * k), ('parallel', 44 * k), ('large', 10 * k), ('model', 14 * k), ('sigma', 200 * k)]


class SlowTrees(list):
    """A forest whose traversal is delayed at random, so that workers finish out of order."""

    def __iter__(self):
        h = (time.perf_counter_ns() // 1000 + os.getpid() * 7919) % 97
        if h < 3:
            time.sleep(0.004 * (1 + h))
        return super().__iter__()


def grow(rng):
    from bayeso.trees import trees_random_forest, trees_generic_trees
    d = gen.pick(rng, [1, 2, 3, 4, 10])
    n = gen.pick(rng, [1, 2, 5, 12, 30, 90])
    X = rng.uniform(-2, 2, (n, d))
    if gen.chance(rng, 0.3):
        X = np.round(X)
    Y = np.sin(X @ rng.randn(d))[:, None] + 0.3 * rng.randn(n, 1)
    s = 1.0 if gen.chance(rng, 0.7) else 10 ** rng.uniform(-13, 9)       # inputs in units of any size
    o = s * gen.pick(rng, [0.0, 0.0, 1e3, 1e6]) if s != 1.0 else 0.0
    X = X * s + o
    if gen.chance(rng, 0.2):
        Y = np.round(Y)
    sc = float(gen.pick(rng, [1.0, 1.0, 1e4, 1e-4]))
    off = float(gen.pick(rng, [0.0, 0.0, 3.0, -50.0, 1e6, -1e9])) * sc
    Y = Y * sc + off
    T = gen.pick(rng, [1, 2, 3, 10, 25, 130, 260], [.18, .18, .18, .2, .2, .04, .02])
    dm = gen.pick(rng, [1, 2, 4, 6, 12])
    nf = int(rng.randint(1, d + 1))
    if gen.chance(rng, 0.5):
        trees = trees_random_forest.get_random_forest(X, Y, T, dm, gen.pick(rng, [1, 3]), nf)
    else:
        rep = gen.chance(rng, 0.5)
        trees = trees_generic_trees.get_generic_trees(X, Y, T, dm, gen.pick(rng, [1, 3]), 1.0, rep, nf, gen.chance(rng, 0.5))
    return X, Y, trees, d, n, T, (s, o)


def split_values(node, acc):
    if isinstance(node, dict):
        acc.append((node['index'], node['value']))
        split_values(node['left'], acc)
        split_values(node['right'], acc)


def queries(rng, X, trees, N, unit):
    n, d = X.shape
    Q = rng.uniform(-2.5, 2.5, (N, d)) * unit[0] + unit[1]
    k = rng.rand(N)
    acc = []
    for t in trees[:5]:
        split_values(t, acc)
    for i in range(N):
        if k[i] < 0.2:
            Q[i] = X[rng.randint(n)]
        elif k[i] < 0.45 and acc:
            f, v = acc[rng.randint(len(acc))]
            Q[i, f] = v
        elif k[i] < 0.55:
            Q[i] *= 1e3
    return Q


def spread_bound(a, r):
    """Rounding error of a variance of values with magnitude a and range r (means are rounded relative to a)."""
    return 1e-12 * r * r + 1e-13 * a * r + (2e-14 * a) ** 2


def compare(mon, got, want, Q, Y, ctx):
    mu, sd = got
    N = len(Q)
    if not mon.check(np.shape(mu) == (N, 1) and np.shape(sd) == (N, 1), 'one row per query', mean=np.shape(mu), std=np.shape(sd), **ctx):
        return False
    wm, ws = want
    a = float(np.max(np.abs(Y))) + 1e-300
    r = float(np.max(Y) - np.min(Y))
    ok = mon.close(mu[:, 0], wm, 'the mean is the mean over trees of the leaf means', rtol=1e-11, atol=1e-12 * a, **ctx)
    mon.check(bool(np.all(sd >= 0)), 'standard deviations are not negative', **ctx)
    mon.close(sd[:, 0] ** 2, ws ** 2, 'the deviation is that of the leaf mixture', rtol=1e-9, atol=spread_bound(a, r), **ctx)
    mon.check(bool(np.all(mu >= Y.min() - 1e-12 * a) and np.all(mu <= Y.max() + 1e-12 * a)), 'the mean stays in the range of the outputs', **ctx)
    return ok


def same(mon, m1, m2, s1, s2, Y, what, ctx):
    """Equal up to the rounding of differently ordered sums."""
    a = float(np.max(np.abs(Y))) + 1e-300
    mon.close(m1, m2, what + ': mean', rtol=1e-12, atol=1e-13 * a, **ctx)
    mon.close(np.asarray(s1) ** 2, np.asarray(s2) ** 2, what + ': deviation', rtol=1e-10, atol=spread_bound(a, float(np.max(Y) - np.min(Y))), **ctx)


def run(case, mon):
    import multiprocessing
    from bayeso.trees import trees_common
    from bayeso import bo
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    if k == 'sigma':
        T = gen.pick(rng, [1, 2, 3, 10, 100, 500])
        sc = 10 ** rng.uniform(-4, 4)
        m = (rng.randn(T) + gen.pick(rng, [0.0, 5.0, -1e5, 1e9])) * sc
        s = np.abs(rng.randn(T)) * sc
        if gen.chance(rng, 0.3):
            s[rng.rand(T) < 0.5] = 0.0
        if gen.chance(rng, 0.2):
            m[:] = m[0]
        lo = gen.pick(rng, [None, 0.0, 0.3 * sc, 2.0 * sc])
        got = trees_common.compute_sigma(m, s) if lo is None else trees_common.compute_sigma(m, s, min_sigma=float(lo))
        s2 = np.maximum(s, lo or 0.0)
        want = np.mean(s2 ** 2) + np.var(m)
        ctx = dict(T=T, scale=sc, min_sigma=lo)
        mon.check(np.ndim(got) == 0 and got >= 0 and np.isfinite(got), 'the deviation is a non-negative number', got=got, **ctx)
        mon.close(float(got) ** 2, want, 'law of total variance', rtol=1e-9,
                  atol=spread_bound(float(np.max(np.abs(m))), float(np.ptp(m) + np.max(s2))), **ctx)
        if want > 0:
            mon.key(k, T, lo is None, round(np.log10(sc)))
        return
    X, Y, trees, d, n, T, unit = grow(rng)
    if k == 'model':
        N = gen.pick(rng, [1, 40, 100, 130])
        R = np.array([[-2.5, 2.5]] * d) * unit[0] + unit[1]
        m = bo.BOwTrees(R, str_acq=gen.pick(rng, gen.ACQ))
        Q = queries(rng, X, trees, N, unit)
        mu, sd = m.compute_posteriors(Q, trees)
        ctx = dict(N=N, d=d, T=T, n=n)
        if mon.check(np.shape(mu) == (N,) and np.shape(sd) == (N,), 'one value per query', got=np.shape(mu), **ctx):
            compare(mon, (mu[:, None], sd[:, None]), treeref.forest(trees, Q), Q, Y, ctx)
        mon.key(k, N, T, d)
        return
    if k == 'small':
        N = gen.pick(rng, [1, 2, 3, 10, 60, 99, 100])
        Q = queries(rng, X, trees, N, unit)
        ctx = dict(N=N, d=d, T=T, n=n)
        want = treeref.forest(trees, Q)
        got = trees_common.predict_by_trees(Q, trees)
        compare(mon, got, want, Q, Y, ctx)
        i = int(rng.randint(N))
        one = trees_common.predict_by_trees(Q[i:i + 1], trees)
        same(mon, one[0], got[0][i:i + 1], one[1], got[1][i:i + 1], Y, 'one by one and in a batch', ctx)
        u = trees_common.unit_predict_by_trees(Q, trees)
        same(mon, u[0], got[0], u[1], got[1], Y, 'serial prediction agrees', ctx)
        p = rng.permutation(N)
        g2 = trees_common.predict_by_trees(Q[p], trees)
        same(mon, g2[0], got[0][p], g2[1], got[1][p], Y, 'query order', ctx)
        mon.event('queries', N)
        if N == 1 or np.ptp(want[0]) > 0:
            mon.key(k, N, T, d, n)
        mon.note(N=N, T=T, mean=want[0][:3], std=want[1][:3])
        return
    N = gen.pick(rng, [101, 102, 150, 199, 200, 201, 250, 300, 301, 450, 777, 801, 901, 1000, 1001])
    trees = trees[:10]
    if k == 'large':
        N = gen.pick(rng, [1101, 1500, 1999, 2001, 2500, 3301, 5001])
        trees = trees[:4]
    T = len(trees)
    Q = queries(rng, X, trees, N, unit)
    w = gen.pick(rng, [None, 1, 2, 3, 5])
    slow = gen.chance(rng, 0.6)
    ctx = dict(N=N, d=d, T=T, n=n, workers=w, slow=slow)
    want = treeref.forest(trees, Q)
    orig = multiprocessing.cpu_count
    try:
        if w is not None:
            multiprocessing.cpu_count = lambda: w
        got = trees_common.predict_by_trees(Q, SlowTrees(trees) if slow else trees)
    finally:
        multiprocessing.cpu_count = orig
    if compare(mon, got, want, Q, Y, ctx):
        idx = rng.randint(0, N, 5)
        for i in idx:
            one = trees_common.predict_by_trees(Q[i:i + 1], trees)
            same(mon, one[0], got[0][i:i + 1], one[1], got[1][i:i + 1], Y, 'one by one and in a parallel batch', ctx)
        h = trees_common.predict_by_trees(Q[:100], trees)
        same(mon, h[0], got[0][:100], h[1], got[1][:100], Y, 'small and parallel batches agree', ctx)
    mon.event('parallel_queries', N)
    mon.event('parallel_batches')
    if np.ptp(want[0]) > 0:
        mon.key(k, N, T, d, w, slow)
    mon.note(N=N, T=T, workers=w, delayed=slow)
