import numpy as np
import gen
import post
import ref

RULE = ('A case evaluates the covariance functions on one pair of input sets (duplicates, far and near points, up to 12 '
        'dimensions, integer and strided arrays, sets of different sizes) and compares every entry with the textbook '
        'formula and the structural laws. Non-trivial when both a far and a near pair were present or sets were used; '
        'distinct by kind, kernel, dimension, sizes and lengthscale form.')


def plan(tier):
    k = 15 if tier == "quick" else 60
    return [('base', 700 * k), ('laws', 400 * k), ('set', 250 * k), ('matrices', 400 * k)]


def inputs(rng, n, d):
    st = gen.pick(rng, ['uniform', 'normal', 'lattice', 'dups', 'spread', 'offset'])
    if st == 'spread':
        X = rng.randn(n, d) * 10 ** rng.uniform(-3, 3)
    elif st == 'offset':
        X = rng.randn(n, d) + rng.uniform(-1, 1, d) * 10 ** rng.uniform(0, 6)
    else:
        X, _, _ = gen.data(rng, n, d, st)
    if st == 'lattice' and gen.chance(rng, 0.4):
        X = X.astype(int)
    elif gen.chance(rng, 0.2):
        X = np.asfortranarray(X)
    elif gen.chance(rng, 0.2):
        X = np.repeat(X, 2, axis=0)[::2]
    return X


def tol(name, X, Z, h):
    if name.startswith('set_'):
        return 50 * post.kernel_rel(name, X, Z, h) * float(h['signal']) ** 2 * 4
    r = ref.scaled_dist(X, Z, h['lengthscales'])
    k = ref.kernel(name, X, Z, h)
    return 50 * post.kernel_rel(name, X, Z, h) * (1 + r) * (k + 1e-300)


def direct(name):
    from bayeso import covariance as cv
    f = {'eq': cv.cov_se, 'se': cv.cov_se, 'matern32': cv.cov_matern32, 'matern52': cv.cov_matern52}[name]
    return f


def within(mon, got, want, t, what, **ctx):
    if not mon.check(np.shape(got) == np.shape(want), what + ' (shape)', got=np.shape(got), want=np.shape(want), **ctx):
        return
    bad = ~(np.abs(got - want) <= t)
    mon.event('entries_compared', int(np.size(want)))
    if bad.any():
        i = tuple(int(q) for q in np.argwhere(bad)[0])
        mon.fail(what, got=got[i], want=want[i], at=i, bad=int(bad.sum()), **ctx)


def run(case, mon):
    from bayeso import covariance as cv
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    d = gen.pick(rng, [1, 2, 3, 5, 12, 30], [.2, .2, .2, .2, .15, .05])
    n, q = gen.logint(rng, 1, 25), gen.logint(rng, 1, 25)
    if k == 'base' and gen.chance(rng, 0.15):
        n, q = gen.logint(rng, 1, 400), gen.logint(rng, 1, 400)
    name = gen.pick(rng, gen.COV)
    h = gen.hyps(rng, d, ls=gen.pick(rng, [(0.2, 3.0), (0.01, 100.0)]))
    h['signal'] = float(10 ** rng.uniform(-2, 3))
    ls = h['lengthscales']
    ctx = dict(name=name, d=d, n=n, q=q, ls=ls, signal=h['signal'])
    if k == 'base':
        X, Z = inputs(rng, n, d), inputs(rng, q, d)
        if gen.chance(rng, 0.4):
            Z[0] = X[0].astype(Z.dtype)
        want = ref.kernel(name, X, Z, h)
        t = tol(name, X, Z, h)
        within(mon, direct(name)(X, Z, ls, h['signal']), want, t, 'kernel function equals its formula', **ctx)
        within(mon, cv.choose_fun_cov(name)(X, Z, ls, h['signal']), want, t, 'kernel by name equals its formula', **ctx)
        within(mon, cv.cov_main(name, X, Z, h, False), want, t, 'cov_main without jitter', **ctx)
        same = ref.kernel(name, X, X, h)
        j = gen.pick(rng, [None, 0.0, 1e-3, 0.5])
        kw = {} if j is None else {'jitter': j}
        got = cv.cov_main(name, X, X, h, True, **kw)
        jj = 1e-5 if j is None else j
        ts = tol(name, X, X, h) + 1e-14 * (np.abs(same) + jj)
        within(mon, got, same + jj * np.eye(n), ts, 'cov_main with jitter on the diagonal', jitter=j, **ctx)
        within(mon, cv.cov_main(name, X, X, h, False), same, ts, 'cov_main of equal sets not declared the same', **ctx)
        r = ref.scaled_dist(X, Z, ls)
        if r.max() > 1 > r.min():
            mon.key(k, name, d, n, q, np.ndim(ls))
        mon.note(kernel=name, d=d, n=n, q=q, r_min=float(r.min()), r_max=float(r.max()))
        return
    if k == 'laws':
        s2 = h['signal'] ** 2
        X = np.round(gen.data(rng, n, d)[0] * 16) / 16
        Z = np.round(gen.data(rng, q, d)[0] * 16) / 16
        f = direct(name)
        K = f(X, X, ls, h['signal'])
        C = f(X, Z, ls, h['signal'])
        t = 1e-9 * s2
        within(mon, K.T, K, t * 1e-3, 'symmetric', **ctx)
        within(mon, np.diag(K), np.full(n, s2), 1e-12 * s2, 'squared signal at zero distance', **ctx)
        mon.check(bool(np.all(C <= s2 * (1 + 1e-12)) and np.all(C >= 0)), 'never larger than the squared signal', **ctx)
        w = np.linalg.eigvalsh((K + K.T) / 2)
        mon.check(w.min() >= -1e-10 * n * s2, 'positive semi-definite', w=w.min(), **ctx)
        within(mon, f(Z, X, ls, h['signal']), C.T, t * 1e-3, 'exchange of arguments', **ctx)
        sh = rng.randint(-8, 9, d).astype(float)
        within(mon, f(X + sh, Z + sh, ls, h['signal']), C, 1e-7 * s2 if np.min(np.atleast_1d(ls)) < 0.1 else t, 'translation', **ctx)
        fl = rng.choice([-1.0, 1.0], d)
        within(mon, f(X * fl, Z * fl, ls, h['signal']), C, t, 'reflection', **ctx)
        a = 2.0 ** rng.randint(-4, 5, d)
        lsa = (np.ones(d) * ls) * a
        within(mon, f(X * a, Z * a, lsa, h['signal']), C, t, 'common scaling of inputs and lengthscales', **ctx)
        within(mon, f(X, Z, np.ones(d) * ls, h['signal']), C, t, 'scalar lengthscale is the same in every dimension', **ctx)
        within(mon, f(X, Z, ls, 2 * h['signal']), 4 * C, 4 * t, 'scales with the squared signal', **ctx)
        p = rng.permutation(d)
        within(mon, f(X[:, p], Z[:, p], (np.ones(d) * ls)[p], h['signal']), C, t, 'permutation of dimensions', **ctx)
        i = rng.permutation(n)
        within(mon, f(X[i], Z, ls, h['signal']), C[i], t * 1e-3, 'permutation of rows', **ctx)
        within(mon, np.array([[f(X[u:u + 1], Z[v:v + 1], ls, h['signal'])[0, 0] for v in range(q)] for u in range(n)]), C, t,
               'entries do not depend on other rows', **ctx)
        mon.key(k, name, d, n, q, np.ndim(ls))
        return
    if k == 'set':
        m1, m2 = gen.pick(rng, [1, 2, 3, 7]), gen.pick(rng, [1, 2, 3, 7])
        n, q = min(n, 8), min(q, 8)
        if gen.chance(rng, 0.25):
            m1, m2 = gen.logint(rng, 1, 60), gen.logint(rng, 1, 60)
        elif gen.chance(rng, 0.2):
            n, q = gen.logint(rng, 1, 40), gen.logint(rng, 1, 40)
        o = rng.uniform(-1, 1, d) * gen.pick(rng, [0.0, 0.0, 30.0, 1e4])
        X = rng.uniform(-2, 2, (n, m1, d)) + o
        Z = rng.uniform(-2, 2, (q, m2, d)) + o
        if gen.chance(rng, 0.4):
            X[0] = X[-1]
        sname = 'set_' + name
        s2 = h['signal'] ** 2
        want = ref.kernel(sname, X, Z, h)
        t = tol(sname, X, Z, h)
        ctx.update(m1=m1, m2=m2)
        C = cv.cov_main(sname, X, Z, h, False)
        within(mon, C, want, t, 'set kernel is the average over pairs', **ctx)
        within(mon, np.array([[cv.cov_set(name, X[0], Z[0], ls, h['signal'])]]), want[:1, :1], t, 'cov_set', **ctx)
        j = gen.pick(rng, [None, 0.0, 0.25])
        kw = {} if j is None else {'jitter': j}
        S = ref.kernel(sname, X, X, h)
        got = cv.cov_main(sname, X, X, h, True, **kw)
        within(mon, got, S + (1e-5 if j is None else j) * np.eye(n), t + 1e-14, 'set kernel with jitter on the diagonal', jitter=j, **ctx)
        within(mon, cv.cov_main(sname, X, X, h, False), S, t, 'set kernel of equal sets not declared the same', **ctx)
        Xp = np.array([x[rng.permutation(m1)] for x in X])
        Zp = np.array([x[rng.permutation(m2)] for x in Z])
        within(mon, cv.cov_main(sname, Xp, Zp, h, False), C, t, 'order of elements', **ctx)
        w = np.linalg.eigvalsh(cv.cov_main(sname, X, X, h, True, jitter=0.0))
        mon.check(w.min() >= -1e-10 * n * s2, 'set kernel is positive semi-definite', w=w.min(), **ctx)
        mon.key(k, name, d, n, q, m1, m2, np.ndim(ls))
        mon.note(kernel=sname, sets=(n, q), elements=(m1, m2))
        return
    # regression matrices
    st = gen.chance(rng, 0.2)
    if st:
        name = 'set_' + name
        X = rng.uniform(-2, 2, (min(n, 8), gen.pick(rng, [1, 2, 4]), d))
    else:
        if gen.chance(rng, 0.1):
            n = gen.logint(rng, 25, 250)
        X = gen.data(rng, n, d)[0]
        if gen.chance(rng, 0.2):
            X = X + rng.uniform(-1, 1, d) * 10 ** rng.uniform(0, 4)
    n = len(X)
    h['noise'] = float(10 ** rng.uniform(-3, 1))
    h['signal'] = float(10 ** rng.uniform(-2, 2))
    ug = gen.chance(rng, 0.3) and not st
    fix = gen.chance(rng, 0.5)
    K = ref.train_cov(name, X, h)
    t = 100 * post.kernel_rel(name, X, X, h) * h['signal'] ** 2 + 1e-13 * h['noise'] ** 2
    cov, inv, g = cv.get_kernel_inverse(X, h, name, fix_noise=fix, use_gradient=ug, debug=gen.chance(rng, 0.1))
    post.check_cov(mon, name, X, h, cov, inv, 'get_kernel_inverse: ')
    mon.check((g is None) == (not ug), 'gradient only on request')
    mon.check(np.array_equal(cov, cov.T), 'regression matrix is symmetric')
    cov2, L, g2 = cv.get_kernel_cholesky(X, h, name, fix_noise=fix, use_gradient=ug)
    within(mon, cov2, K, t, 'get_kernel_cholesky: matrix', noise=h['noise'], **ctx)
    mon.check(np.allclose(L, np.tril(L)) and bool(np.all(np.diag(L) > 0)), 'Cholesky factor is lower triangular')
    within(mon, L @ L.T, K, t + 1e-12 * n * np.max(np.diag(K)), 'Cholesky factor reproduces the matrix', noise=h['noise'], **ctx)
    if ug:
        within(mon, g, g2, 1e-12 * (1 + np.max(np.abs(g))), 'both algorithms give the same gradient')
    mon.key(k, name, d, n, fix, ug, np.ndim(ls))
