import numpy as np
import gen
import ref
import runs

RULE = ('A case repeats a Thompson-sampling step on fixed data over a candidate grid and compares the selection frequencies '
        'with an independent simulation of the posterior of the fitted model, makes single steps on difficult data, or '
        'records a whole run. Non-trivial when at least two candidates have probability above five percent, or a run made '
        'at least one iteration; distinct by kind, sizes, dimension, normalization, method, box.')
CASE_LIMIT = 240
ASSUMPTIONS = ['frequencies are compared with thresholds of false-alarm probability below 1e-8 per case']


def plan(tier):
    k = 1 if tier == 'quick' else 14
    return [('freq', 40 * k), ('freq_many', 12 * k), ('step', 240 * k), ('run', 110 * k)]


def grid(R, g):
    ax = [np.linspace(a, b, g) for a, b in R]
    return np.stack(np.meshgrid(*ax, indexing='ij'), axis=-1).reshape(-1, len(R))


def index_of(C, x, R):
    w = np.where(R[:, 1] > R[:, 0], R[:, 1] - R[:, 0], 1.0)
    D = np.max(np.abs(C - x) / w, axis=1)
    i = int(np.argmin(D))
    return i if D[i] < 1e-9 else None


def run(case, mon):
    from bayeso import thompson_sampling as ts
    from bayeso.gp import gp_kernel
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    if k == 'run':
        return whole(case, mon, rng, ts)
    d = gen.pick(rng, [1, 2])
    if k == 'step':
        d = gen.pick(rng, [1, 2, 3])
        R, fl = gen.box(rng, d, gen.pick(rng, ['unit', 'sym', 'mixed', 'negative', 'ints', 'huge']))
        n = gen.pick(rng, [1, 2, 5, 12])
        X = gen.inside(rng, R, n)
        if gen.chance(rng, 0.2):
            X[:] = X[0]
        f = gen.objective(rng, R)
        Y = np.array([[f(x)] for x in X])
        g = gen.pick(rng, [2, 3, 7]) if d < 3 else gen.pick(rng, [2, 3])
        if d < 3 and gen.chance(rng, 0.08):
            g = gen.pick(rng, [120, 300]) if d == 1 else 15
        C = grid(R, g)
        meth = gen.pick(rng, ['grid', 'grid'] + gen.SAMP)
        norm = gen.chance(rng, 0.6)
        p = ts.thompson_sampling_gp_iteration(R, X, Y, normalize_Y=norm, str_sampling_method=meth, num_samples=g, debug=gen.chance(rng, 0.1))
        ctx = dict(d=d, n=n, box=fl, method=meth, num=g, norm=norm, objective=f.kind)
        mon.check(np.shape(p) == (d,) and bool(np.all(np.isfinite(p))), 'a step returns one finite point', got=p, **ctx)
        if meth == 'grid':
            mon.check(index_of(C, p, R) is not None, 'the point is one of the candidates', got=p, **ctx)
        mon.check(bool(np.all(p >= R[:, 0]) and np.all(p <= R[:, 1])), 'the point lies in the box', got=p, box_=R, **ctx)
        mon.event('steps')
        if n > 1:
            mon.key(k, d, n, fl, meth, norm, f.kind, g)
        return
    # frequencies
    R, fl = gen.box(rng, d, gen.pick(rng, ['unit', 'sym', 'ints', 'negative']))
    g = gen.pick(rng, [3, 5, 7]) if d == 1 else gen.pick(rng, [2, 3])
    many = k == 'freq_many'
    if many:
        g = gen.pick(rng, [110, 150, 300, 400]) if d == 1 else gen.pick(rng, [11, 13, 18])
        if case['i'] % 2:
            g = 400 if d == 1 else 20
    C = grid(R, g)
    data_many = k == 'freq' and case['i'] % 8 == 5
    at_candidates = k == 'freq' and case['i'] % 4 == 2
    for _ in range(60):
        n = gen.pick(rng, [2, 3, 4, 6] if not data_many else [21, 26, 34])
        X = gen.inside(rng, R, n)
        if data_many:
            X = R[:, 0] + (X - R[:, 0]) * 0.6
        if gen.chance(rng, 0.4):
            X = R[:, 0] + (X - R[:, 0]) * 0.5
        if at_candidates:          # some candidates are evaluated already
            X[:2] = C[rng.choice(len(C), 2, replace=False)]
        f = gen.objective(rng, R, gen.pick(rng, ['quad', 'sin', 'linear', 'bump']), scale=gen.pick(rng, [1.0, 3.0]), off=gen.pick(rng, [0.0, 1.0, -4.0]))
        Y = np.array([[f(x)] for x in X])
        norm = gen.chance(rng, 0.5)
        Yn = ref.normalize(Y) if norm else Y
        _, _, h = gp_kernel.get_optimized_kernel(X, Yn, None, 'matern52', str_optimizer_method='BFGS')
        try:
            mu, S, _, cond = ref.gp_posterior('matern52', X, Yn, C, h)
        except np.linalg.LinAlgError:
            continue
        ev = np.linalg.eigvalsh((S + S.T) / 2)
        if cond > 1e10 or (ev[0] < 1e-7 * max(1.0, ev[-1]) and not many) or ev[0] < -1e-7 * max(1.0, ev[-1]):
            continue
        M = 40000 if not many else 20000
        ew, ev = np.linalg.eigh((S + S.T) / 2)
        dr = mu[:, 0] + np.random.RandomState(7).randn(M, len(C)) @ (ev * np.sqrt(np.maximum(ew, 0))).T
        # with many candidates: pooled into blocks of neighbouring candidates
        blk = np.arange(len(C)) if not many else (np.arange(len(C)) * 12) // len(C)
        P = np.bincount(blk[np.argmin(dr, axis=1)], minlength=blk[-1] + 1) / M
        if np.sum(P > 0.05) >= 2 and (not many or case['i'] % 4 != 1 or P[8:].sum() > 0.2):
            break
    else:
        mon.event('no_suitable_data')
        mon.event('assertions')
        return
    N = 250 if not many else 130
    cnt = np.zeros(len(P))
    ctx = dict(d=d, n=n, box=fl, num=g, norm=norm, objective=f.kind)
    for t in range(N):
        p = ts.thompson_sampling_gp_iteration(R, X, Y, normalize_Y=norm, str_sampling_method='grid', num_samples=g)
        i = index_of(C, p, R)
        if not mon.check(i is not None, 'the point is one of the candidates', got=p, **ctx):
            return
        cnt[blk[i]] += 1
    for i in range(len(P)):
        q = P[i]
        s = np.sqrt(q * (1 - q) / N + max(q, 1.0 / M) / M)
        mon.check(abs(cnt[i] / N - q) <= 6.0 * s + 6.0 / N, 'candidates are selected with the probability that they minimize the posterior draw',
                  candidate=i, frequency=cnt[i] / N, probability=q, prob=P, counts=cnt, **ctx)
    # all candidates together
    ok = P * N >= 3
    chi = float(np.sum((cnt[ok] - N * P[ok]) ** 2 / (N * P[ok] * (1 + N / M))))
    if ok.sum() > 1:
        k_ = int(ok.sum())
        mon.check(chi <= k_ + 9.0 * np.sqrt(2 * k_) + 30, 'selection frequencies (all candidates)', chi2=chi, prob=P, counts=cnt, **ctx)
        # pooled over cases: standardized sum, approximately normal with mean zero
        mon.event('pooled_cases')
        mon.event('pooled_dof_x1000', int(1000 * (k_ - P[ok].sum())))
        mon.event('pooled_chi2_x1000', int(1000 * min(chi, 1e6)))
    mon.event('draws', N)
    mon.event('cases_with_many_data', int(data_many))
    mon.event('cases_with_evaluated_candidates', int(at_candidates))
    mon.key(k, d, n, g, norm, fl, f.kind)
    mon.note(probabilities=P, counts=cnt)


def whole(case, mon, rng, ts):
    d = gen.pick(rng, [1, 2, 3])
    R, fl = gen.box(rng, d)
    f = gen.objective(rng, R)
    ni = gen.pick(rng, [1, 2, 3, 6])
    it = gen.pick(rng, [0, 1, 2, 4, 6, 10, 13], [.19, .19, .2, .19, .19, .02, .02])
    meth = gen.pick(rng, gen.SAMP)
    ns = gen.pick(rng, [1, 5, 50])
    norm = gen.chance(rng, 0.6)
    rec = runs.Recorder(f, gen.pick(rng, ['float', 'np', 'arr1', 'arr0', 'buffer']), scribble=gen.chance(rng, 0.25))
    seen = []
    orig = ts.thompson_sampling_gp_iteration

    def spy(*a, **kw):
        xs = [q for q in a if isinstance(q, np.ndarray)]
        r = orig(*a, **kw)
        if len(xs) >= 3:
            seen.append((xs[1].copy(), xs[2].copy(), np.array(r, copy=True)))
        return r
    ts.thompson_sampling_gp_iteration = spy
    try:
        X, Y = ts.thompson_sampling_gp(R, rec, ni, it, normalize_Y=norm, str_sampling_method=meth, num_samples=ns, debug=gen.chance(rng, 0.1))
    finally:
        ts.thompson_sampling_gp_iteration = orig
    ctx = dict(d=d, n_init=ni, n_iter=it, method=meth, num=ns, norm=norm, box=fl, objective=f.kind)
    mon.check(np.shape(X) == (ni + it, d) and np.shape(Y) == (ni + it, 1), 'one row per initial point and iteration', X=np.shape(X), Y=np.shape(Y), **ctx)
    mon.check(len(rec.calls) == ni + it, 'the objective is evaluated once per row', calls=len(rec.calls), **ctx)
    if len(rec.calls) == len(X) and np.shape(Y) == (ni + it, 1):
        mon.check(np.array_equal(rec.xs().reshape(len(X), -1), X), 'rows are evaluated in order', **ctx)
        mon.check(np.array_equal(rec.ys(), np.asarray(Y, float)[:, 0]), 'each output is what the objective returned', **ctx)
    mon.check(bool(np.all(X >= R[:, 0]) and np.all(X <= R[:, 1])), 'all points lie in the box', **ctx)
    for t, (xs, ys, r) in enumerate(seen):
        if len(xs) == ni + t and len(X) > ni + t:
            mon.check(np.array_equal(xs, X[:ni + t]) and np.array_equal(ys, Y[:ni + t]), 'a step sees all the evaluations so far', step=t, **ctx)
            mon.check(np.array_equal(r, X[ni + t]), 'the point of the step is evaluated', step=t, **ctx)
            mon.event('steps_observed')
    if it:
        mon.key(k_run(case), d, ni, it, meth, ns, norm, fl, f.kind)
    mon.note(calls=len(rec.calls), steps_observed=len(seen))


def k_run(case):
    return case['kind']


def final(events, mon, tier):
    n = events.get('pooled_cases', 0)
    if n >= 15:
        dof = events['pooled_dof_x1000'] / 1000.0
        chi = events['pooled_chi2_x1000'] / 1000.0
        # expected value of the sum is close to the sum of (1 - p); generous spread
        mon.check(chi <= dof + 9.0 * np.sqrt(2 * dof) + 60, 'selection frequencies pooled over all cases', chi2=chi, dof=dof, cases=n)
