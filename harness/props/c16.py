import collections
import numpy as np
import scipy.stats
import gen
import treeref

RULE = ('A case grows one forest (random forest, generic trees with every sampling and splitting option, or the trees of an '
        'optimization step) and walks every tree: stored pairs, routing, depth, leaf sizes, split features, values and '
        'scores. Non-trivial when at least one tree has two or more split levels or limits stop it; distinct by kind, size, '
        'dimension, depth, leaf size, sampling options and data style.')


def plan(tier):
    k = 2 if tier == 'quick' else 16
    return [('rf', 220 * k), ('generic', 420 * k), ('step', 24 * k), ('wide', 40 * k), ('twenty', 80 * k),
            ('subset', 24 * k)]


def data(rng, n, d):
    st = gen.pick(rng, ['cont', 'ints', 'const_feature', 'dup_rows', 'all_same', 'conflict', 'skewed', 'clumps', 'int'])
    X = rng.uniform(-3, 3, (n, d))
    if st == 'ints':
        X = rng.randint(-2, 3, (n, d)).astype(float)
    elif st == 'const_feature':
        X[:, rng.randint(d)] = 1.25
    elif st == 'dup_rows':
        X = X[rng.randint(0, n, n)]
    elif st == 'all_same':
        X[:] = X[0]
    elif st == 'conflict':
        X = rng.randint(0, 2, (n, d)).astype(float)
    elif st == 'skewed':
        X = np.exp(4 * rng.randn(n, d))
    elif st == 'clumps':
        X = rng.randint(-2, 3, (n, d)) * 1e3 + 1e-3 * rng.randn(n, d)
    elif st == 'int':
        X = rng.randint(-9, 10, (n, d))
    Y = rng.randn(n, 1) * gen.pick(rng, [1.0, 1.0, 100.0, 0.01, 1e6]) + gen.pick(rng, [0.0, 5.0, -1000.0])
    if gen.chance(rng, 0.15):
        Y = np.round(Y)
    return X, Y, st


def pair_key(x, y):
    return (np.ascontiguousarray(x, float).tobytes(), float(np.squeeze(y)))


def node_pairs(node):
    """The sample below a node, leaves in order."""
    if not isinstance(node, dict):
        return list(node)
    if not isinstance(node['left'], dict) and not isinstance(node['right'], dict) and same_leaf(node):
        return list(node['left'])
    return node_pairs(node['left']) + node_pairs(node['right'])


def same_leaf(node):
    L, R = node['left'], node['right']
    return L is R or (len(L) == len(R) and len(L) > 0 and all(pair_key(*a) == pair_key(*b) for a, b in zip(L, R)))


def score(X, Y, f, v):
    m = X[:, f] < v
    if m.all() or not m.any():
        return np.inf
    return float(np.var(Y[m]) + np.var(Y[~m]))


def walk(mon, node, depth, c, st):
    """Checks one internal node; depth counts nodes on the path including this one."""
    pairs = node_pairs(node)
    d = c['d']
    X = np.array([np.asarray(p[0], float) for p in pairs]).reshape(len(pairs), d)
    Y = np.array([float(np.squeeze(p[1])) for p in pairs])
    f, v = node['index'], node['value']
    mon.check(isinstance(f, (int, np.integer)) and 0 <= f < d, 'a split uses an existing feature', index=f, **c)
    mon.check(depth <= max(1, c['depth_max']), 'no path is longer than the maximum depth', depth=depth, **c)
    if depth > 1:
        mon.check(len(pairs) > c['min_leaf'], 'nodes of at most the minimum leaf size are not split', size=len(pairs), **c)
    st['nodes'] += 1
    st['deep'] = max(st['deep'], depth)
    col = X[:, f]
    lo, hi = col.min(), col.max()
    mon.check(lo <= v <= hi, 'split values lie between values of the data', value=v, low=lo, high=hi, **c)
    L, Rr = node['left'], node['right']
    if not isinstance(L, dict) and not isinstance(Rr, dict) and same_leaf(node):
        # not splittable: nothing fell on one side of the value
        st['degenerate'] += 1
        m = col < v
        mon.check(bool(m.all() or not m.any()), 'a split node separates its sample by the split value', value=v, size=len(pairs), **c)
        if c['deterministic']:
            best = min(best_of(X, Y, g) for g in ([f] if c['nf'] < d else range(d)))
            mon.check(not np.isfinite(best) or lo == hi, 'a node whose sample can be separated is separated', value=v, **c)
            if c['nf'] >= d:
                mon.check(not np.isfinite(best), 'a node whose sample can be separated is separated', value=v, size=len(pairs), **c)
        return
    for side, child in (('left', L), ('right', Rr)):
        cp = node_pairs(child)
        mon.check(len(cp) > 0, 'no empty side', side=side, **c)
        cx = np.array([float(np.asarray(p[0])[f]) for p in cp])
        ok = np.all(cx < v) if side == 'left' else np.all(cx >= v)
        mon.check(bool(ok), 'every stored pair lies in the leaf to which its input is routed', side=side, feature=f, value=v, **c)
        if isinstance(child, dict):
            walk(mon, child, depth + 1, c, st)
        else:
            st['leaves'] += 1
            mon.check(len(cp) <= c['min_leaf'] or depth >= c['depth_max'], 'splitting goes on until a limit is reached', size=len(cp), depth=depth, **c)
            if len(cp) <= c['min_leaf'] and depth < c['depth_max']:
                st['stopped_by_size'] += 1
            elif len(cp) > c['min_leaf']:
                st['stopped_by_depth'] += 1
    if c['deterministic']:
        got = score(X, Y, f, v)
        sc = float(np.var(Y)) * 1e-9 + 1e-12 * (1 + float(np.max(np.abs(Y))) ** 2)
        feats = range(d) if c['nf'] >= d else [f]
        for g in feats:
            if len(np.unique(X[:, g])) <= 21:
                b = best_of(X, Y, g)
                st['optimal'] += 1
                mon.check(got <= b + sc, 'a deterministic split minimizes the summed variance over its locations', got=got, best=b, feature=f, other=g, size=len(pairs), **c)
            elif g == f:
                # the best of twenty random locations: worse than 70 % of them with probability 4e-11
                st['ranked'] += 1
                w = rank_of(X, Y, g, got, sc)
                mon.check(w <= 0.7, 'a deterministic split is the best of its random locations', better=w, feature=f, size=len(pairs), **c)


def rank_of(X, Y, g, got, tol):
    """Fraction of the locations of a feature which are better than the chosen one."""
    u = np.unique(X[:, g])
    return float(np.mean([score(X, Y, g, x) < got - tol for x in u[1:]]))


def best_of(X, Y, g):
    u = np.unique(X[:, g])
    if len(u) < 2:
        return np.inf
    return min(score(X, Y, g, x) for x in u[1:])


def subset(rng, mon):
    """Which feature the first split uses tells how many distinct features it was offered."""
    from bayeso.trees import trees_generic_trees
    d = gen.pick(rng, [3, 5, 6, 8, 10, 16])
    nf = int(rng.randint(2, d))
    n = int(rng.randint(8, 16))
    X, Y = rng.uniform(-3, 3, (n, d)), rng.randn(n, 1)
    if gen.chance(rng, 0.4):          # many rows, but at most twenty values, so that every location is examined
        n = gen.pick(rng, [40, 70, 130, 300])
        X, Y = rng.randint(0, gen.pick(rng, [3, 9, 20]), (n, d)) * 0.25, rng.randn(n, 1)
    sc = np.array([best_of(X, Y[:, 0], g) for g in range(d)])
    tol = 1e-9 * float(np.var(Y))
    T = 300
    trees = trees_generic_trees.get_generic_trees(X, Y, T, 1, 1, 1.0, False, nf, False)
    used = np.array([sc[t['index']] for t in trees])
    # the best of nf distinct features out of d is at least as good as m of them with the probability of a hypergeometric law
    from math import comb
    ctx = dict(d=d, nf=nf, n=n)
    for v in np.unique(sc):
        m = int(np.sum(sc <= v + tol))
        p = 1.0 - comb(d - m, nf) / comb(d, nf)
        c = int(np.sum(used <= v + tol))
        lo, hi = scipy.stats.binom.ppf(1e-10, T, p), scipy.stats.binom.isf(1e-10, T, p)
        mon.check(lo <= c <= hi, 'the features offered to a split are a random subset of the requested size', splits=c, of=T, probability=p, better=m, **ctx)
        if m == d:
            break
    mon.event('subset_trees', T)
    mon.key('subset', d, nf, n)
    mon.note(**ctx)


def run(case, mon):
    from bayeso.trees import trees_random_forest, trees_generic_trees
    from bayeso import bo
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    if k == 'subset':
        return subset(rng, mon)
    d = gen.pick(rng, [1, 2, 3, 5, 8], [.24, .24, .24, .2, .08])
    n = gen.pick(rng, [1, 2, 3, 5, 9, 20, 45])
    if k == 'wide':
        n = gen.pick(rng, [80, 150, 400, 700], [.4, .4, .12, .08])
        d = gen.pick(rng, [2, 4, 9])
    X, Y, style = data(rng, n, d)
    if k == 'twenty':                 # about as many locations as are examined at most
        n, d = int(rng.randint(19, 23)), gen.pick(rng, [1, 2])
        X, Y, style = rng.uniform(-3, 3, (n, d)), rng.randn(n, 1), 'twenty'
    T = gen.pick(rng, [1, 2, 5, 12])
    dm = gen.pick(rng, [1, 2, 3, 5, 9, 14, 30], [.16, .18, .18, .18, .15, .1, .05])
    ml = gen.pick(rng, [1, 1, 2, 4, 10])
    nf = int(rng.randint(1, d + 1))
    c = dict(d=d, n=n, trees=T, depth_max=dm, min_leaf=ml, nf=nf, style=style, deterministic=True, replace=True, ratio=1.0)
    if k == 'step':
        R = np.array([[-3.0, 3.0]] * d)
        norm = gen.chance(rng, 0.5)
        m = bo.BOwTrees(R, normalize_Y=norm)
        if gen.chance(rng, 0.5):
            p, info = m.optimize(X, Y, num_samples=20, seed=1)
            trees = info['trees']
            Y = info['Y_normalized']
            c.update(trees=100, depth_max=5, min_leaf=1, nf=int(np.sqrt(d)))
        else:
            trees = m.get_trees(X, Y, num_trees=T, depth_max=dm, size_min_leaf=ml)
            c.update(nf=int(np.sqrt(d)))
    elif k == 'rf':
        trees = trees_random_forest.get_random_forest(X, Y, T, dm, ml, nf)
    else:
        rep = gen.chance(rng, 0.5) and k != 'twenty'
        ratio = float(gen.pick(rng, [0.34, 0.5, 0.75, 1.0] + ([1.5, 2.0] if rep else [])))
        if int(n * ratio) < 1:
            ratio = 1.0
        rnd = gen.chance(rng, 0.4) and k != 'twenty'
        if k == 'twenty':
            ratio, nf, T = 1.0, d, 12
            c.update(nf=nf, trees=T)
        c.update(deterministic=not rnd, replace=rep, ratio=ratio)
        trees = trees_generic_trees.get_generic_trees(X, Y, T, dm, ml, ratio, rep, nf, rnd)
    mon.check(isinstance(trees, list) and len(trees) == c['trees'], 'a forest has the requested number of trees', got=len(trees), **c)
    have = collections.Counter(pair_key(x, y) for x, y in zip(X, Y))
    size = int(n * c['ratio'])
    st = collections.Counter()
    reps = 0
    used = collections.Counter()
    samples = set()
    for t in trees:
        pairs = node_pairs(t)
        cnt = collections.Counter(pair_key(*p) for p in pairs)
        mon.check(len(pairs) == size, 'the sample of a tree has the requested size', got=len(pairs), want=size, **c)
        mon.check(all(q in have for q in cnt), 'every stored pair is an input of the data with its own output', **c)
        over = any(cnt[q] > have[q] for q in cnt)
        if not c['replace']:
            mon.check(not over, 'no repetition without replacement', **c)
        reps += over
        samples.add(frozenset(cnt.items()))
        used.update(cnt.keys())
        walk(mon, t, 1, c, st)
        if c['nf'] == 1 and d in (2, 3, 5) and style in ('cont', 'ints'):
            mon.event('root_feature:%d:%d' % (d, t['index']))
    if style in ('cont', 'skewed', 'clumps') and n >= 40 and len(trees) > 1 and (c['replace'] or c['ratio'] < 1) and len(have) >= 40:
        # two independent samples coincide with a probability below 1e-10
        mon.check(len(samples) == len(trees), 'each tree is grown on a sample drawn for it', samples=len(samples), **c)
        mon.event('forests_with_own_samples')
    if c['replace'] and n >= 9 and len(trees) >= 5 and c['ratio'] >= 1.0:
        mon.check(reps > 0, 'sampling with replacement repeats rows', **c)
    for q in ('nodes', 'leaves', 'degenerate', 'optimal', 'ranked', 'stopped_by_size', 'stopped_by_depth'):
        mon.event(q, st[q])
    mon.event('trees', len(trees))
    if st['deep'] > 1 or st['degenerate'] or st['stopped_by_depth']:
        mon.key(k, n, d, dm, ml, nf, style, c['replace'], c['ratio'], c['deterministic'])
    mon.note(config=c, walked=dict(st))


def final(events, mon, tier):
    for d in (2, 3, 5):
        cnt = [events.get('root_feature:%d:%d' % (d, i), 0) for i in range(d)]
        n = sum(cnt)
        if n >= 200:
            for i in range(d):
                p = 1.0 / d
                z = abs(cnt[i] - n * p) / np.sqrt(n * p * (1 - p))
                mon.check(z < 6.5, 'features offered to a split are a random subset', d=d, counts=cnt)
