import numpy as np
import gen
import ref
import post
import treeref

RULE = ('A case is a sequence of optimization steps on one optimizer object with the step information compared to an '
        'independent posterior and acquisition (rounding bounds propagated from the reported inverse), or calls of '
        'compute_posteriors / compute_acquisitions at chosen query points, including sets. Non-trivial when the '
        'comparison tolerance was below one percent of the spread of the acquisition values; distinct by kind, '
        'surrogate, kernel, acquisition, optimizer, sampling method, mode and dimension.')
ASSUMPTIONS = ['comparisons whose propagated rounding bound exceeds one percent of the values are counted as '
               'undecidable, not as passes']


def plan(tier):
    k = 1 if tier == 'quick' else 14
    return [('conv', 24 * k), ('step', 420 * k), ('trees', 45 * k), ('direct', 160 * k), ('cma', 16 * k), ('manytrees', 5 * k), ('wide', 24 * k)]


_C0 = []


def multiplier():
    """The fixed factor of reported acquisition values, from one canonical call."""
    if not _C0:
        from bayeso import bo
        m = bo.BOwGP(np.array([[0.0, 1.0]]), str_acq='pure_exploit')
        X = np.array([[0.2], [0.9]])
        Y = np.array([[1.0], [3.0]])
        h = {'noise': 0.5, 'signal': 1.0, 'lengthscales': np.array([0.5])}
        K = ref.train_cov('matern52', X, h)
        a = m.compute_acquisitions(np.array([[0.3]]), X, Y, K, np.linalg.inv(K), h)
        mu = ref.gp_posterior('matern52', X, Y, np.array([[0.3]]), h)[0][0, 0]
        _C0.append(float(a[0] / -mu))
    return _C0[0]


def build(rng, s, R, prior, opt_bo):
    from bayeso import bo
    c = {'s': s, 'cov': gen.pick(rng, gen.COV), 'acq': gen.pick(rng, gen.ACQ), 'norm': gen.chance(rng, 0.6),
         'ard': gen.chance(rng, 0.6), 'opt_bo': opt_bo, 'debug': gen.chance(rng, 0.1),
         'exp': gen.pick(rng, [None, None, 'e1'])}
    kw = dict(str_acq=c['acq'], normalize_Y=c['norm'], debug=c['debug'], str_exp=c['exp'])
    if s == 'rf':
        return bo.BOwTrees(R, **kw), c
    kw.update(str_cov=c['cov'], use_ard=c['ard'], prior_mu=prior, str_optimizer_method_bo=opt_bo)
    if s == 'gp':
        c['opt'] = gen.pick(rng, gen.OPT_GP)
        c['sel'] = gen.pick(rng, ['ml', 'loocv'], [0.75, 0.25])
        return bo.BOwGP(R, str_optimizer_method_gp=c['opt'], str_modelselection_method=c['sel'], **kw), c
    c['opt'] = gen.pick(rng, gen.OPT_TP)
    return bo.BOwTP(R, str_optimizer_method_tp=c['opt'], **kw), c


def compare_acq(mon, got, a0, t, what, **ctx):
    """got: positive multiple of the acquisition. Returns decidability."""
    c0 = multiplier()
    if not mon.check(np.shape(got) == np.shape(a0), what + ': one value per point', got=np.shape(got), want=np.shape(a0), **ctx):
        return False
    a = np.asarray(got, float) / c0
    spread = max(float(np.max(np.abs(a0))), 1e-300)
    dec = t <= 0.01 * max(float(np.ptp(a0)), 0.1 * spread) if len(a0) > 1 else t <= 0.01 * spread
    mon.event('values_compared', int(np.sum(dec)))
    mon.event('values_undecidable', int(np.sum(~dec)))
    bad = ~(np.abs(a - a0) <= t + 1e-9 * np.abs(a0))
    if bad.any():
        i = int(np.argmax(np.abs(a - a0) * bad))
        mon.fail(what, got=a[i], want=a0[i], tol=t[i], index=i, **ctx)
    mon.event('assertions')
    return bool(np.all(dec))


def check_step(mon, m, c, X, Y, p, info, prior, samples, mlm, meth, n, seed, R):
    s = c['s']
    need = ['next_points', 'acquisitions', 'Y_original', 'Y_normalized', 'time_surrogate', 'time_acq', 'time_overall'] + \
        (['trees'] if s == 'rf' else ['cov_X_X', 'inv_cov_X_X', 'hyps'])
    miss = [q for q in need if q not in info]
    if not mon.check(not miss, 'step information is complete', missing=miss):
        return False
    ctx = dict(config=c, mlm=mlm, meth=meth, n=n, rows=len(X), seed=seed)
    mon.check(np.array_equal(info['Y_original'], Y), 'Y_original is the data given', **ctx)
    Yn = ref.normalize(Y) if (c['norm'] and mlm != 'converged') else Y
    mon.close(info['Y_normalized'], Yn, 'Y_normalized is the (un)normalized data', rtol=1e-9, atol=1e-12 * (1 + np.max(np.abs(Yn))), **ctx)
    ts, ta, to = (float(info[q]) for q in ('time_surrogate', 'time_acq', 'time_overall'))
    mon.check(ts >= 0 and ta >= 0 and to + 1e-6 >= ts + ta, 'times add up', ts=ts, ta=ta, to=to)
    P = np.asarray(info['next_points'])
    A = np.asarray(info['acquisitions'])
    if not mon.check(P.ndim == 2 and A.shape == (len(P),), 'one reported value per candidate', P=P.shape, A=A.shape, **ctx):
        return False
    if s != 'rf' and c['opt_bo'] != 'CMA-ES' or s == 'rf':
        want = (n ** R.shape[0]) if meth == 'grid' else n
        mon.check(len(P) == want, 'one candidate per start', got=len(P), want=want, **ctx)
    if s == 'rf':
        mu, sd = treeref.forest(info['trees'], np.vstack([P]))
        tm = 1e-10 * (1 + np.max(np.abs(Yn)))
        tv = 1e-10 * (1 + np.max(np.abs(Yn))) ** 2
        a0, t = post.acq_with_tol(c['acq'], mu, sd ** 2, tm, tv, Yn, 0.01)
        pm, ps = m.compute_posteriors(P[:40], info['trees'])
        mon.close(pm, mu[:40], 'posterior mean of the forest', rtol=1e-9, atol=tm, **ctx)
        mon.check(bool(np.all(np.abs(np.asarray(ps) ** 2 - sd[:40] ** 2) <= tv)), 'posterior deviation of the forest', **ctx)
        rows = {(x.tobytes(), float(y[0])) for x, y in zip(np.ascontiguousarray(X), Yn)}
        for tr in info['trees'][:10]:
            for leaf in treeref.leaves(tr):
                for bx, by in leaf[0]:
                    if not mon.check(any(np.array_equal(bx, x) and abs(float(np.squeeze(by)) - float(y[0])) <= 1e-12 * (1 + abs(float(y[0])))
                                         for x, y in zip(X, Yn)), 'trees are grown on the data of the step', **ctx):
                        return False
    else:
        hy = info['hyps']
        ls = hy['lengthscales']
        ok = (isinstance(ls, np.ndarray) and ls.shape == (R.shape[0],)) if c['ard'] else np.ndim(ls) == 0
        mon.check(ok, 'lengthscales have the requested form', ls=ls, **ctx)
        mon.check(float(hy['noise']) == 0.01, 'the noise is fixed to its default', noise=hy['noise'])
        if s == 'tp':
            mon.check(float(hy['dof']) > 2.0, 'degrees of freedom above two', dof=hy['dof'])
        if not (np.all(np.isfinite(np.asarray(ls, float))) and np.isfinite(hy['signal']) and np.all(np.asarray(ls, float) != 0)):
            mon.event('degenerate_fit')
            return False
        post.check_cov(mon, c['cov'], X, hy, info['cov_X_X'], info['inv_cov_X_X'])
        Q = P if samples is None else np.vstack([P, samples])
        mu, var, tm, tv = post.from_inverse(c['cov'], X, Yn, Q, np.asarray(info['inv_cov_X_X']), hy, prior, tp=(s == 'tp'))
        a0, t = post.acq_with_tol(c['acq'], mu, var, tm, tv, Yn, float(hy['noise']))
        pm, ps = m.compute_posteriors(X, Yn, Q, info['cov_X_X'], info['inv_cov_X_X'], hy)
        if mon.check(np.shape(pm) == (len(Q),) and np.shape(ps) == (len(Q),), 'posterior shapes', pm=np.shape(pm), ps=np.shape(ps)):
            mon.check(bool(np.all(np.abs(pm - mu) <= tm)), 'posterior mean', err=float(np.max(np.abs(pm - mu) - tm)), **ctx)
            lo, sd, hi = post.std_interval(var, tv)
            mon.check(bool(np.all((ps >= lo - 1e-12) & (ps <= hi + 1e-12))), 'posterior standard deviation', **ctx)
    k = len(P)
    dec = compare_acq(mon, -A, a0[:k], t[:k], 'reported acquisition values are those of the surrogate', **ctx)
    if s != 'rf':
        # values much below the floor of the tolerance are compared with the object's own
        lib = -np.asarray(m.compute_acquisitions(P, X, Yn, info['cov_X_X'], info['inv_cov_X_X'], hy))
        tp_ = multiplier() * np.maximum(t[:k] - 1e-13 * (1 + np.max(np.abs(Yn))), 0)
        if mon.check(lib.shape == A.shape, 'one acquisition value per point', got=lib.shape, want=A.shape, **ctx):
            bad = ~(np.abs(lib - A) <= 1e-9 * np.abs(lib) + 2 * tp_ + 1e-280)
            mon.check(not bad.any(), 'reported acquisition values are those the object computes', reported=A[bad][:3], computed=lib[bad][:3], **ctx)
    # the suggestion is the best candidate
    c0 = multiplier()
    where = [i for i in range(k) if np.array_equal(P[i], p)]
    if mon.check(len(where) > 0, 'the suggestion is one of the candidates', p=p, **ctx):
        i = min(where, key=lambda q: A[q])
        tol = c0 * (t[i] + np.max(t[:k])) * 2 + 1e-12 * np.max(np.abs(A))
        mon.check(A[i] <= np.min(A) + tol, 'the suggestion has the best reported acquisition', got=A[i], best=np.min(A), tol=tol, **ctx)
    if s != 'rf' and samples is not None and len(where):
        b = a0[k:]
        tb = t[k:]
        i = where[0]
        tol = t[i] * 2 + 2 * tb + 1e-9 * np.max(np.abs(a0))
        mon.check(bool(np.all(a0[i] >= b - tol)), 'the suggestion is at least as good as every start', got=a0[i],
                  best_start=float(np.max(b)), **ctx)
        mon.event('starts_compared', len(b))
    if s == 'rf' and samples is not None:
        mon.check(np.array_equal(P, samples), 'candidates are the seeded samples', **ctx)
    return dec


def run(case, mon):
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    if k == 'direct':
        return direct(rng, mon)
    s = {'step': gen.pick(rng, ['gp', 'tp'], [0.6, 0.4]), 'conv': 'gp', 'trees': 'rf', 'manytrees': 'rf', 'wide': gen.pick(rng, ['gp', 'tp']), 'cma': gen.pick(rng, ['gp', 'tp'])}[k]
    d = gen.pick(rng, [1, 2, 3, 5], [0.35, 0.35, 0.2, 0.1])
    if k == 'cma':
        d = 2
    if k == 'conv':
        d = gen.pick(rng, [1, 2])
    if k == 'manytrees':
        d = gen.pick(rng, [1, 2])
    if k == 'wide':
        d = gen.pick(rng, [4, 8, 12])
    R, fl = gen.box(rng, d, gen.pick(rng, ['unit', 'sym', 'negative', 'ints', 'mixed', 'offset'], [.25, .2, .15, .15, .15, .1]))
    prior = gen.prior_fun(rng) if s != 'rf' else None
    m, c = build(rng, s, R, prior, {'step': gen.pick(rng, ['L-BFGS-B', 'DIRECT'], [0.85, 0.15]), 'wide': 'L-BFGS-B', 'conv': 'L-BFGS-B', 'trees': 'random_search', 'manytrees': 'random_search', 'cma': 'CMA-ES'}[k])
    f = gen.objective(rng, R, scale=gen.pick(rng, [1.0, 1.0, 10.0, 0.1]))
    X = gen.inside(rng, R, gen.pick(rng, [1, 2, 3, 5, 8, 14, 25], [.1, .1, .2, .2, .2, .15, .05]))
    if k == 'wide' or k == 'manytrees':
        X = gen.inside(rng, R, gen.pick(rng, [30, 60, 100, 150]))
    if k == 'manytrees':        # the best candidates lie in one corner of the box
        w = rng.choice([-1.0, 1.0], d)
        w[0] = 1.0 if case['i'] % 4 == 3 else -1.0
        w = w / (R[:, 1] - R[:, 0] + 1e-9)
        f = lambda x: float(np.dot(w, np.ravel(x)))   # noqa
    Y = np.array([[f(x)] for x in X])
    if gen.chance(rng, 0.3) and len(X) > 2:
        Y += 0.1 * rng.randn(*Y.shape)
    mlm = 'converged' if k == 'conv' else gen.pick(rng, gen.MLM, [0.6, 0.2, 0.2]) if s == 'gp' else 'regular'
    anydec = False
    for step in range(gen.pick(rng, [2, 4], [.85, .15]) if k == 'step' else 9 if k == 'conv' else 1):
        meth = gen.pick(rng, gen.SAMP + ['grid'])
        n = 1 if k == 'conv' else gen.pick(rng, [1, 2, 3, 6])
        if k == 'conv' and meth == 'grid':
            meth = 'sobol'
        if s == 'rf':
            n = gen.pick(rng, [1, 20, 99, 100, 101, 250])
        if k == 'manytrees':
            meth = gen.pick(rng, gen.SAMP + ['grid'] * 8)
            n = {1: 7001, 2: 84, 3: 19, 5: 6}[d] if meth == 'grid' else int(rng.randint(5001, 6500))
        elif meth == 'grid':
            n = 3 if d <= 2 else 2
            if d > 5:
                meth, n = 'uniform', 3
            elif s == 'rf' and d <= 2 and gen.chance(rng, 0.3):
                n = 40 if d == 2 else 1500
        seed = gen.pick(rng, [None, 0, int(rng.randint(10 ** 6))], [0.2, 0.2, 0.6])
        kw = {'str_mlm_method': mlm} if s == 'gp' else {}
        p, info = m.optimize(X, Y, str_sampling_method=meth, num_samples=n, seed=seed, **kw)
        samples = None
        if c['opt_bo'] != 'CMA-ES' and (seed is not None or meth == 'grid'):
            samples = m.get_samples(meth, num_samples=n, seed=seed)
        anydec |= bool(check_step(mon, m, c, X, Y, p, info, prior, samples, mlm, meth, n, seed, R))
        nxt = gen.pick(rng, ['append', 'other inputs', 'other outputs', 'other order'], [.6, .16, .16, .08])
        if k == 'conv':       # the fit settles on the same data and is then used for other data of the same or another size
            nxt = 'same' if step < 3 else gen.pick(rng, ['append', 'other inputs', 'other outputs', 'other order'])
            mon.event('settled_steps', int(not m.is_optimize_hyps))
        if nxt == 'append':
            X = np.vstack([X, gen.inside(rng, R, 1)])
            Y = np.vstack([Y, [[f(X[-1])]]])
        elif nxt == 'other inputs':           # data of the same shape and partly the same content
            X = gen.inside(rng, R, len(X))
        elif nxt == 'other outputs':
            Y = Y[::-1].copy() + gen.pick(rng, [0.0, 1.0])
        elif nxt == 'other order':
            o = rng.permutation(len(X))
            X, Y = X[o], Y[o]
        mon.event('next_step:' + nxt)
    if anydec:
        mon.key(k, s, c['cov'], c['acq'], c['opt_bo'], meth, mlm, d, c['norm'])
    mon.note(config=c, mlm=mlm, rows=len(X), decidable=anydec, suggestion=p)


def direct(rng, mon):
    """compute_posteriors / compute_acquisitions with given hyperparameters, vectors and sets."""
    from bayeso import bo
    tp = gen.chance(rng, 0.45)
    d = gen.pick(rng, [1, 2, 3, 6, 12])
    sets = gen.chance(rng, 0.25)
    name = gen.pick(rng, gen.COV)
    R = np.stack([-np.ones(d) * 3, np.ones(d) * 3], 1)
    prior = gen.prior_fun(rng)
    acq = gen.pick(rng, gen.ACQ)
    h = gen.hyps(rng, d, use_gp=not tp)
    n = gen.logint(rng, 1, gen.pick(rng, [30, 200], [.8, .2]))
    nq = gen.pick(rng, [1, 2, 7, 40, 700, 1500, 3000], [.2, .2, .2, .2, .08, .07, .05])
    if sets:
        name = 'set_' + name
        mel = gen.pick(rng, [1, 2, 4])
        n, nq = min(n, 30), min(nq, 40)
        X = rng.uniform(-2, 2, (n, mel, d))
        Q = rng.uniform(-2, 2, (nq, gen.pick(rng, [1, 3, 4]), d))
        Y = rng.randn(n, 1)
    else:
        X, Y, _ = gen.data(rng, n, d)
        Q = rng.uniform(-3, 3, (nq, d))
        if gen.chance(rng, 0.4):
            Q[0] = X[0]
    kw = dict(str_cov=name, str_acq=acq, prior_mu=prior, use_ard=gen.chance(rng, 0.5), debug=gen.chance(rng, 0.1),
              normalize_Y=gen.chance(rng, 0.5))
    m = bo.BOwTP(R, **kw) if tp else bo.BOwGP(R, **kw)
    K = ref.train_cov(name, X, h)
    inv = np.linalg.inv(K)
    mu, var, tm, tv = post.from_inverse(name, X, Y, Q, inv, h, prior, tp=tp)
    pm, ps = m.compute_posteriors(X, Y, Q, K, inv, h)
    mon.check(np.shape(pm) == (nq,) and np.shape(ps) == (nq,), 'posterior shapes')
    mon.check(bool(np.all(np.abs(pm - mu) <= tm)), 'compute_posteriors: mean', err=float(np.max(np.abs(pm - mu))), tp=tp,
              name=name, prior=getattr(prior, 'kind', None))
    lo, sd, hi = post.std_interval(var, tv)
    mon.check(bool(np.all((ps >= lo - 1e-12) & (ps <= hi + 1e-12))), 'compute_posteriors: deviation', tp=tp, name=name)
    a0, t = post.acq_with_tol(acq, mu, var, tm, tv, Y, float(h['noise']))
    a = m.compute_acquisitions(Q, X, Y, K, inv, h)
    dec = compare_acq(mon, a, a0, t, 'compute_acquisitions is the configured acquisition', acq=acq, tp=tp, name=name, n=n)
    if not sets:
        a1 = m.compute_acquisitions(Q[0], X, Y, K, inv, h)
        compare_acq(mon, a1, a0[:1], t[:1], 'a single query point as a vector', acq=acq, tp=tp, name=name)
    if dec:
        mon.key('direct', tp, name, acq, d, nq, getattr(prior, 'kind', None))
    mon.note(acq=acq, tp=tp, kernel=name, rows=n, queries=nq)
