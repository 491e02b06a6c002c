import numpy as np
import gen
import post
import ref

RULE = ('A case predicts at query points (training points, near, far, duplicated) from one training set and compares mean, '
        'deviation and full covariance with an independent conditional distribution, with sub- and supersets of data and '
        'queries, and between the entry points. Non-trivial when propagated rounding bounds are below one percent of the '
        'predictions; distinct by kind, kernel, sizes, dimension, prior and set/vector inputs.')


def plan(tier):
    k = 6 if tier == 'quick' else 40
    return [('vector', 500 * k), ('set', 150 * k), ('subset', 250 * k), ('fitted', 120 * k), ('big', 16 * k)]


def setup(rng, k, tp):
    d = gen.pick(rng, [1, 2, 3, 6, 11], [.25, .25, .2, .2, .1])
    n = gen.pick(rng, [1, 2, 3, 6, 12, 30, 60], [.12, .16, .16, .2, .2, .12, .04])
    q = gen.pick(rng, [1, 2, 5, 20, 70], [.2, .25, .3, .2, .05])
    if k == 'big':
        n, q, d = gen.pick(rng, [5, 40, 100, 150, 250, 420, 530]), gen.pick(rng, [120, 200, 520, 1040]), gen.pick(rng, [2, 4])
        if gen.chance(rng, 0.3):
            n, q = gen.pick(rng, [5, 40]), gen.pick(rng, [1300, 2100])
    name = gen.pick(rng, gen.COV)
    h = gen.hyps(rng, d, use_gp=not tp, ls=gen.pick(rng, [(0.3, 3.0), (0.05, 20.0)]))
    prior = gen.prior_fun(rng)
    if k == 'set':
        name = 'set_' + name
        n, q = min(n, 8), min(q, 8)
        X = rng.uniform(-2, 2, (n, gen.pick(rng, [1, 2, 4]), d))
        Q = rng.uniform(-2, 2, (q, gen.pick(rng, [1, 2, 3]), d))
        Y = rng.randn(n, 1) + rng.uniform(-3, 3)
    else:
        X, Y, _ = gen.data(rng, n, d)
        Q = rng.uniform(-3, 3, (q, d))
        if gen.chance(rng, 0.5):
            Q[0] = X[rng.randint(n)]
        if q > 1 and gen.chance(rng, 0.4):
            Q[1] = Q[0]
        if q > 2 and gen.chance(rng, 0.4):
            Q[2] = 100.0
    Y = Y * gen.pick(rng, [1.0, 1.0, 50.0, 0.02, 1e4, 1e-4], [.25, .25, .2, .14, .08, .08])
    if gen.chance(rng, 0.1):
        Y = Y + rng.uniform(-1, 1) * 10 ** rng.uniform(1, 5)
    if gen.chance(rng, 0.15):          # far from the origin
        o = np.round(rng.uniform(-1, 1, d) * 10 ** rng.uniform(0, 4))
        X, Q = X + o, Q + o
    if gen.chance(rng, 0.1):
        X, Q = np.round(X).astype(int), np.round(Q).astype(int)
    if gen.chance(rng, 0.08):
        h['noise'] = float(10 ** rng.uniform(0, 2))
    return d, n, q, name, h, prior, X, Y, Q


def reference(name, X, Y, Q, h, prior, tp):
    """Mean, covariance, tolerances from a Cholesky-based conditional."""
    mu, S, beta, cond = ref.gp_posterior(name, X, Y, Q, h, prior)
    inv = np.linalg.inv(ref.train_cov(name, X, h))
    _, _, tmu, tvar = post.from_inverse(name, X, Y, Q, inv, h, prior)
    s2 = h['signal'] ** 2
    aK = np.abs(ref.kernel(name, X, Q, h)) + 1e-3 * s2
    dl = post.kernel_rel(name, X, Q, h)
    tS = 200 * dl * (s2 + aK.T @ np.abs(inv) @ aK)
    # rounding of the inverse or factor itself
    ai = np.abs(inv)
    m = np.zeros((len(X), 1)) if prior is None else prior(X)
    r = np.abs(Y - m)
    B = ai @ np.abs(ref.train_cov(name, X, h)) @ ai * (20 * post.EPS)
    tmu = tmu + (aK.T @ (B @ r))[:, 0]
    tS = tS + aK.T @ B @ aK
    f = 1.0
    if tp:
        nu = h['dof']
        f = (nu + beta - 2) / (nu + len(X) - 2)
        tb = (200 * 2.2e-16 * float(np.squeeze(r.T @ ai @ r)) + float(np.squeeze(r.T @ B @ r))) / (nu + len(X) - 2)
        tS = f * tS + tb * (np.abs(S) + tS)
    return mu, f * S, tmu[:, None], tS, f, cond


def compare(mon, got, refr, what, **ctx):
    mu, S, tm, tS, f, cond = refr
    gm, gs, gS = got
    q = len(mu)
    if not mon.check(np.shape(gm) == (q, 1) and np.shape(gs) == (q, 1) and np.shape(gS) == (q, q), what + ': shapes',
                     mean=np.shape(gm), std=np.shape(gs), cov=np.shape(gS), **ctx):
        return
    bad = ~(np.abs(gm - mu) <= tm)
    mon.check(not bad.any(), what + ': mean is the conditional mean', err=float(np.max(np.abs(gm - mu))), i=int(np.argmax(bad)), **ctx)
    bad = ~(np.abs(gS - S) <= tS)
    mon.check(not bad.any(), what + ': covariance is the conditional covariance', err=float(np.max(np.abs(gS - S))), **ctx)
    lo, s, hi = post.std_interval(np.diag(S), np.diag(tS))
    gs1 = gs[:, 0]
    mon.check(bool(np.all(gs1 >= 0) and np.all((gs1 >= lo - 1e-13) & (gs1 <= hi + 1e-13))), what + ': standard deviation', got=gs1[:5], want=s[:5], **ctx)
    mon.check(bool(np.allclose(gs1 ** 2, np.maximum(np.diag(gS), 0), rtol=1e-9, atol=1e-14 * (1 + np.max(np.abs(gS))))),
              what + ': deviation is the root of the covariance diagonal', **ctx)
    mon.event('predictions_compared', q)
    return bool(np.all(tm <= 0.01 * (1e-3 + np.max(np.abs(mu)))) and np.all(tS <= 0.01 * (1e-6 + np.max(np.diag(S)))))


def run(case, mon):
    from bayeso import covariance as cv
    from bayeso.gp import gp, gp_kernel
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    d, n, q, name, h, prior, X, Y, Q = setup(rng, k, False)
    ctx = dict(name=name, d=d, n=n, q=q, prior=getattr(prior, 'kind', None), hyps=h)
    dbg = gen.chance(rng, 0.1)
    if k == 'fitted':
        n = min(n, 12)
        X, Y = X[:n], Y[:n]
        opt = gen.pick(rng, gen.OPT_GP)
        fix = gen.chance(rng, 0.6)
        a = gp.predict_with_optimized_hyps(X, Y, Q, str_cov=name, str_optimizer_method=opt, prior_mu=prior, fix_noise=fix, debug=dbg)
        cov, inv, hy = gp_kernel.get_optimized_kernel(X, Y, prior, name, str_optimizer_method=opt, fix_noise=fix)
        b = gp.predict_with_cov(X, Y, Q, cov, inv, hy, str_cov=name, prior_mu=prior)
        for i, w in enumerate(('mean', 'deviation', 'covariance')):
            sc = np.max(np.abs(b[i])) + 1e-12
            mon.close(a[i], b[i], 'prediction with fitted hyperparameters is that of the fit: ' + w, rtol=1e-6, atol=1e-7 * sc, opt=opt, **ctx)
        if np.all(np.isfinite(inv)) and np.linalg.cond(cov) < 1e10:
            mu, var, tm, tv = post.from_inverse(name, X, Y, Q, inv, hy, prior)
            mon.check(bool(np.all(np.abs(a[0][:, 0] - mu) <= tm + 1e-9)), 'prediction with fitted hyperparameters: mean', opt=opt, fitted=hy, **ctx)
            lo, s, hi = post.std_interval(var, tv)
            mon.check(bool(np.all((a[1][:, 0] >= lo - 1e-9) & (a[1][:, 0] <= hi + 1e-9))), 'prediction with fitted hyperparameters: deviation', opt=opt, **ctx)
            mon.key(k, name, d, n, q, opt, fix, getattr(prior, 'kind', None))
        return
    R = reference(name, X, Y, Q, h, prior, False)
    if R[5] > 1e10:
        mon.event('ill_conditioned_skipped')
        return
    got = gp.predict_with_hyps(X, Y, Q, h, str_cov=name, prior_mu=prior, debug=dbg)
    dec = compare(mon, got, R, 'predict_with_hyps', **ctx)
    cov, inv, _ = cv.get_kernel_inverse(X, h, name)
    got2 = gp.predict_with_cov(X, Y, Q, cov, inv, h, str_cov=name, prior_mu=prior)
    compare(mon, got2, R, 'predict_with_cov', **ctx)
    s2 = h['signal'] ** 2
    if not name.startswith('set_'):
        mon.check(bool(np.all(np.diag(got[2]) <= s2 + 1e-5 + np.diag(R[3]))), 'deviation does not exceed the prior', **ctx)
        far = np.all(np.abs(Q[:, None, :] - X[None]) / h['lengthscales'] > 60, axis=(1, 2)) if n else []
        for i in np.where(far)[0]:
            m0 = 0.0 if prior is None else float(prior(Q[i:i + 1])[0, 0])
            mon.check(abs(got[0][i, 0] - m0) <= 1e-6 * (1 + abs(m0)), 'far away the prior mean is predicted', got=got[0][i, 0], want=m0, **ctx)
            mon.event('far_queries')
    if k in ('subset', 'vector', 'set'):
        p = rng.permutation(n)
        a = gp.predict_with_hyps(X[p], Y[p], Q, h, str_cov=name, prior_mu=prior)
        compare(mon, a, R, 'permuted training data', **ctx)
    if k == 'subset':
        pq = rng.permutation(q)
        a = gp.predict_with_hyps(X, Y, Q[pq], h, str_cov=name, prior_mu=prior)
        mon.check(bool(np.all(np.abs(a[0] - R[0][pq]) <= R[2][pq])), 'permuted queries: mean', **ctx)
        mon.check(bool(np.all(np.abs(a[2] - R[1][np.ix_(pq, pq)]) <= R[3][np.ix_(pq, pq)])), 'permuted queries: covariance', **ctx)
        i = rng.randint(q)
        a = gp.predict_with_hyps(X, Y, Q[i:i + 1], h, str_cov=name, prior_mu=prior)
        mon.check(abs(a[0][0, 0] - R[0][i, 0]) <= R[2][i, 0], 'a query alone: mean', **ctx)
        mon.check(abs(a[2][0, 0] - R[1][i, i]) <= R[3][i, i], 'a query alone: variance', **ctx)
        if n > 1:
            w = rng.randint(1, n)
            a = gp.predict_with_hyps(X[:w], Y[:w], Q, h, str_cov=name, prior_mu=prior)
            mon.check(bool(np.all(np.diag(got[2]) <= np.diag(a[2]) + 2 * np.diag(R[3]))), 'more data never increase the deviation', fewer=w, **ctx)
    if dec:
        mon.key(k, name, d, n, q, getattr(prior, 'kind', None), np.ndim(h['lengthscales']))
    mon.note(kernel=name, n=n, q=q, cond=R[5], mean=got[0][:3, 0], std=got[1][:3, 0])
