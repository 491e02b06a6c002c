import numpy as np
import gen
import post
from props.c10 import setup, reference, compare

RULE = ('A case predicts with a Student-t process and compares degrees of freedom, mean, deviation and covariance with an '
        'independent conditional distribution, across orders, query subsets and entry points, and with the Gaussian limit. '
        'Non-trivial when propagated rounding bounds are below one percent; distinct by kind, kernel, sizes, dimension, '
        'prior and inputs.')


def plan(tier):
    k = 6 if tier == 'quick' else 40
    return [('vector', 500 * k), ('set', 150 * k), ('subset', 250 * k), ('limit', 120 * k), ('fitted', 60 * k), ('big', 12 * k)]


def run(case, mon):
    from bayeso import covariance as cv
    from bayeso.tp import tp, tp_kernel
    from bayeso.gp import gp
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    d, n, q, name, h, prior, X, Y, Q = setup(rng, k, True)
    dbg = gen.chance(rng, 0.1)
    if gen.chance(rng, 0.3):
        h['dof'] = gen.pick(rng, [2.01, 3.0, 120.0, 200.0, 1e3, 1e5])
    ctx = dict(name=name, d=d, n=n, q=q, prior=getattr(prior, 'kind', None), hyps=h)
    if k == 'fitted':
        n = min(n, 10)
        X, Y = X[:n], Y[:n]
        opt = gen.pick(rng, gen.OPT_TP)
        fix = gen.chance(rng, 0.6)
        a = tp.predict_with_optimized_hyps(X, Y, Q, str_cov=name, str_optimizer_method=opt, prior_mu=prior, fix_noise=fix, debug=dbg)
        cov, inv, hy = tp_kernel.get_optimized_kernel(X, Y, prior, name, str_optimizer_method=opt, fix_noise=fix)
        b = tp.predict_with_cov(X, Y, Q, cov, inv, hy, str_cov=name, prior_mu=prior)
        mon.close(a[0], b[0], 'fitted degrees of freedom', rtol=1e-9, atol=0)
        mon.close(a[0], hy['dof'] + n, 'degrees of freedom grow by the number of data', rtol=1e-9, atol=0, **ctx)
        for i, w in ((1, 'mean'), (2, 'deviation'), (3, 'covariance')):
            sc = np.max(np.abs(b[i])) + 1e-12
            mon.close(a[i], b[i], 'prediction with fitted hyperparameters is that of the fit: ' + w, rtol=1e-6, atol=1e-7 * sc, opt=opt, **ctx)
        if np.linalg.cond(cov) < 1e10:
            mu, var, tm, tv = post.from_inverse(name, X, Y, Q, inv, hy, prior, tp=True)
            mon.check(bool(np.all(np.abs(a[1][:, 0] - mu) <= tm + 1e-9)), 'prediction with fitted hyperparameters: mean', opt=opt, fitted=hy, **ctx)
            lo, s, hi = post.std_interval(var, tv)
            mon.check(bool(np.all((a[2][:, 0] >= lo - 1e-9) & (a[2][:, 0] <= hi + 1e-9))), 'prediction with fitted hyperparameters: deviation', opt=opt, **ctx)
            mon.key(k, name, d, n, q, opt, fix, getattr(prior, 'kind', None))
        return
    R = reference(name, X, Y, Q, h, prior, True)
    if R[5] > 1e10:
        mon.event('ill_conditioned_skipped')
        return
    got = tp.predict_with_hyps(X, Y, Q, h, str_cov=name, prior_mu=prior, debug=dbg)
    mon.close(got[0], h['dof'] + n, 'degrees of freedom grow by the number of data', rtol=1e-12, atol=0, **ctx)
    dec = compare(mon, got[1:], R, 'predict_with_hyps', **ctx)
    cov, inv, _ = cv.get_kernel_inverse(X, h, name)
    got2 = tp.predict_with_cov(X, Y, Q, cov, inv, h, str_cov=name, prior_mu=prior)
    mon.close(got2[0], h['dof'] + n, 'degrees of freedom with given matrices', rtol=1e-12, atol=0, **ctx)
    compare(mon, got2[1:], R, 'predict_with_cov', **ctx)
    g = gp.predict_with_hyps(X, Y, Q, h, str_cov=name, prior_mu=prior)
    mon.check(bool(np.all(np.abs(g[0] - got[1]) <= 2 * R[2])), 'same mean as the Gaussian process', **ctx)
    p = rng.permutation(n)
    a = tp.predict_with_hyps(X[p], Y[p], Q, h, str_cov=name, prior_mu=prior)
    compare(mon, a[1:], R, 'permuted training data', **ctx)
    if k == 'subset':
        i = rng.randint(q)
        a = tp.predict_with_hyps(X, Y, Q[i:i + 1], h, str_cov=name, prior_mu=prior)
        mon.check(abs(a[1][0, 0] - R[0][i, 0]) <= R[2][i, 0], 'a query alone: mean', **ctx)
        mon.check(abs(a[3][0, 0] - R[1][i, i]) <= R[3][i, i], 'a query alone: variance', **ctx)
        pq = rng.permutation(q)
        a = tp.predict_with_hyps(X, Y, Q[pq], h, str_cov=name, prior_mu=prior)
        mon.check(bool(np.all(np.abs(a[1] - R[0][pq]) <= R[2][pq])), 'permuted queries: mean', **ctx)
        mon.check(bool(np.all(np.abs(a[3] - R[1][np.ix_(pq, pq)]) <= R[3][np.ix_(pq, pq)])), 'permuted queries: covariance', **ctx)
    if k == 'limit':
        hb = dict(h, dof=1e12)
        a = tp.predict_with_hyps(X, Y, Q, hb, str_cov=name, prior_mu=prior)
        f = R[4]
        t = 2 * R[3] / max(f, 1e-12) + 1e-6 * np.max(np.abs(g[2])) * (1 + abs(f) * (h['dof'] + n) / 1e6)
        mon.check(bool(np.all(np.abs(a[3] - g[2]) <= t)), 'tends to the Gaussian process', **ctx)
    if dec:
        mon.key(k, name, d, n, q, getattr(prior, 'kind', None), np.ndim(h['lengthscales']))
    mon.note(kernel=name, n=n, q=q, dof=got[0], factor=R[4])
