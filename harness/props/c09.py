import numpy as np
import gen
import ref
from props.c08 import to_vec

RULE = ('A case evaluates the criteria (marginal likelihood by both algorithms, Student-t, leave-one-out) for one data set '
        'and compares with densities computed independently (leave-one-out by refitting without each point). '
        'Non-trivial when the tolerance is below 1e-3; distinct by kind, kernel, size, dimension, flags, prior, sets.')


def plan(tier):
    k = 12 if tier == 'quick' else 60
    return [('gp', 400 * k), ('tp', 400 * k), ('loo', 300 * k), ('big', 40 * k)]


def run(case, mon):
    from bayeso.gp import gp_likelihood
    from bayeso.tp import tp_likelihood
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    d = gen.pick(rng, [1, 2, 3, 6, 12], [.25, .25, .2, .2, .1])
    n = gen.pick(rng, [1, 2, 3, 5, 10, 25, 60], [.14, .16, .16, .17, .17, .16, .04])
    which = k
    if k == 'big':
        n = gen.pick(rng, [70, 120, 200, 345, 400, 520])
        which = gen.pick(rng, ['gp', 'tp', 'loo'], [.4, .45, .15])
        n = min(n, 130) if which == 'loo' else n
        d = gen.pick(rng, [1, 3])
    name = gen.pick(rng, gen.COV)
    ard = gen.chance(rng, 0.6)
    fix = gen.chance(rng, 0.5)
    tp = which == 'tp'
    X, Y, st = gen.data(rng, n, d)
    sets = k != 'big' and gen.chance(rng, 0.15)
    if sets:
        name = 'set_' + name
        n = min(n, 8)
        X = rng.uniform(-2, 2, (n, gen.pick(rng, [1, 2, 4]), d))
        Y = rng.randn(n, 1)
    Y = Y * gen.pick(rng, [1.0, 1.0, 30.0, 0.01, 1e4], [.25, .25, .2, .2, .1])
    if not sets and gen.chance(rng, 0.12):
        X = X + np.round(rng.uniform(-1, 1, d) * 10 ** rng.uniform(0, 4))
    prior = gen.prior_fun(rng)
    m = np.zeros((n, 1)) if prior is None else prior(X)
    h = gen.hyps(rng, d, use_gp=not tp, ard=ard, noise=0.01 if fix else (None if gen.chance(rng, 0.7) else 10 ** rng.uniform(-4, -2)), ls=(0.3, 4.0))
    if tp:
        h['dof'] = float(2.0 + 10 ** rng.uniform(-2, 2.4 if gen.chance(rng, 0.8) else 5))
    v = to_vec(h, tp, fix)
    K = ref.train_cov(name, X, h)
    cond = np.linalg.cond(K)
    lmin = np.linalg.eigvalsh(K)[0]
    r = Y - m
    quad = float(np.squeeze(r.T @ np.linalg.solve(K, r)))
    ctx = dict(name=name, d=d, n=n, ard=ard, fix=fix, style=st, hyps=h, prior=getattr(prior, 'kind', None), cond=cond)
    if cond > 1e10:
        mon.event('ill_conditioned_skipped')
        return
    debug = gen.chance(rng, 0.1)
    num = 2.2e-16 * cond * 200 * (1 + quad / n)
    perm = rng.permutation(n)
    if which == 'gp':
        want = ref.gp_nll(name, X, Y, h, prior)
        L = np.linalg.cholesky(K)
        tj = np.mean(1e-7 / np.diag(L)) * 1.01
        a = gp_likelihood.neg_log_ml(X, Y, v, name, m, use_ard=ard, fix_noise=fix, use_gradient=False, debug=debug)
        b = gp_likelihood.neg_log_ml(X, Y, v, name, m, use_ard=ard, fix_noise=fix, use_cholesky=False, use_gradient=False)
        c = gp_likelihood.neg_log_ml(X[perm], Y[perm], v, name, m[perm], use_ard=ard, fix_noise=fix, use_gradient=False)
        t = num + 1e-10 * (1 + abs(want))
        mon.check(np.ndim(a) == 0 and np.isfinite(a), 'criterion is a finite number', got=a, **ctx)
        mon.check(abs(float(a) - want) <= t + tj, 'marginal likelihood by Cholesky', got=a, want=want, tol=t + tj, **ctx)
        mon.check(abs(float(b) - want) <= t, 'marginal likelihood by inverse', got=b, want=want, tol=t, **ctx)
        mon.check(abs(float(c) - float(a)) <= t + tj, 'order of the data', got=c, want=a, **ctx)
        if not sets:
            g = gp_likelihood.neg_log_ml(X, Y, v, name, m, use_ard=ard, fix_noise=fix)
            mon.check(abs(float(np.squeeze(g[0])) - want) <= t + tj, 'marginal likelihood with gradient', got=g[0], want=want, **ctx)
    elif which == 'tp':
        want = ref.tp_nll(name, X, Y, h, prior)
        scale = 1 + (h['dof'] + n) / n * min(1.0, quad / (h['dof'] - 2))
        t = num * scale + 1e-9 * (1 + abs(want)) + 1e-12 * n
        a = tp_likelihood.neg_log_ml(X, Y, v, name, m, use_ard=ard, fix_noise=fix, use_gradient=False, debug=debug)
        c = tp_likelihood.neg_log_ml(X[perm], Y[perm], v, name, m[perm], use_ard=ard, fix_noise=fix, use_gradient=False)
        mon.check(np.ndim(a) == 0 and np.isfinite(a), 'criterion is a finite number', got=a, **ctx)
        mon.check(abs(float(a) - want) <= t, 'Student-t marginal likelihood', got=a, want=want, tol=t, **ctx)
        mon.check(abs(float(c) - float(a)) <= 2 * t, 'order of the data', got=c, want=a, **ctx)
        if not sets:
            g = tp_likelihood.neg_log_ml(X, Y, v, name, m, use_ard=ard, fix_noise=fix)
            mon.check(abs(float(np.squeeze(g[0])) - want) <= t, 'Student-t marginal likelihood with gradient', got=g[0], want=want, **ctx)
    else:
        # the predictive precision carries the documented jitter
        tot0 = tot1 = 0.0
        mag = 0.0
        for i in range(n):
            o = [j for j in range(n) if j != i]
            if o:
                L = np.linalg.cholesky(K[np.ix_(o, o)])
                a = np.linalg.solve(L, K[np.ix_(o, [i])])
                b = np.linalg.solve(L, r[o])
                mu, var = float(np.sum(a * b)), float(K[i, i] - np.sum(a * a))
            else:
                mu, var = 0.0, float(K[i, i])
            e2 = (float(r[i, 0]) - mu) ** 2
            v1 = 1.0 / (1.0 / var + 1e-5)
            tot0 += 0.5 * np.log(2 * np.pi * var) + 0.5 * e2 / var
            tot1 += 0.5 * np.log(2 * np.pi * v1) + 0.5 * e2 / v1
            mag += 1 + e2 / var
        w0, w1 = tot0 / n, tot1 / n
        t = 2.2e-16 * cond * 1000 * mag / n + 1e-9 * (1 + abs(w0))
        a = gp_likelihood.neg_log_pseudo_l_loocv(X, Y, v, name, m, fix_noise=fix, use_ard=ard, debug=debug)
        a = float(np.squeeze(a))
        c = float(np.squeeze(gp_likelihood.neg_log_pseudo_l_loocv(X[perm], Y[perm], v, name, m[perm], fix_noise=fix, use_ard=ard)))
        mon.check(np.isfinite(a), 'criterion is a finite number', got=a, **ctx)
        mon.check(abs(a - w0) <= t or abs(a - w1) <= t, 'leave-one-out criterion', got=a, want=w0, with_jitter=w1, tol=t, **ctx)
        mon.check(abs(a - c) <= 2 * t, 'order of the data', got=c, want=a, **ctx)
        want = w0
    if t < 1e-3 * (1 + abs(want)):
        mon.key(k, which, name, n, d, ard, fix, getattr(prior, 'kind', None))
    mon.note(criterion=which, value=want, n=n, kernel=name, min_eig=lmin)
