import numpy as np
import gen
import runs

RULE = ('A case is a direct call of the selection, or a run whose steps are crafted (candidate sets with duplicates of '
        'the history at distances 0 to 9e-9, near misses from 2e-8 on, ties, all-duplicate sets) or real (plateau, '
        'constant and boundary objectives). Non-trivial when at least one step had a duplicate suggestion; distinct by '
        'kind and pattern of duplicates.')
TOL = 1e-8


def plan(tier):
    k = 2 if tier == 'quick' else 16
    return [('direct', 500 * k), ('crafted', 400 * k), ('real', 220 * k)]


def is_dup(p, X):
    return bool(np.any(np.sqrt(np.sum((np.asarray(X) - p) ** 2, axis=1)) < TOL))


def craft(rng, R, X, n=None):
    """Candidates and acquisitions (negative; lower is better) with duplicates of the history X."""
    d = R.shape[0]
    n = n or gen.logint(rng, 1, 30)
    P = gen.inside(rng, R, n)
    mode = gen.pick(rng, ['none', 'some', 'most', 'all', 'best', 'last', 'one'])
    dup = np.zeros(n, bool)
    if mode == 'all':
        dup[:] = True
    elif mode == 'most':
        dup[:] = rng.rand(n) < 0.85
    elif mode == 'some':
        dup[:] = rng.rand(n) < 0.4
    elif mode == 'one':
        dup[rng.randint(n)] = True
    for i in np.where(dup)[0]:
        P[i] = X[rng.randint(len(X))]
        if gen.chance(rng, 0.5):
            v = rng.randn(d)
            v /= np.linalg.norm(v)
            P[i] = P[i] + v * gen.pick(rng, [1e-12, 1e-10, 1e-9, 8e-9])
    for i in np.where(~dup)[0]:
        if gen.chance(rng, 0.15):        # near misses are not duplicates
            v = rng.randn(d)
            v /= np.linalg.norm(v)
            P[i] = X[rng.randint(len(X))] + v * gen.pick(rng, [2e-8, 1e-7, 1e-5])
    a = rng.randn(n) * 10 ** (rng.uniform(-3, 2) if gen.chance(rng, 0.7) else rng.uniform(-12, 9))
    if gen.chance(rng, 0.3):
        a = np.round(a)                   # ties
    if gen.chance(rng, 0.2):
        a = a - np.max(a) - np.ptp(a) * rng.rand() - 1.0           # all negative
    elif gen.chance(rng, 0.2):
        a = a - np.min(a) + gen.pick(rng, [0.0, 1.0, 1e3]) * np.ptp(a)                 # all non-negative
    if mode == 'best':
        P[np.argmin(a)] = X[rng.randint(len(X))]
    elif mode == 'last':
        P[np.argmin(a)] = X[-1]
    return P, a, mode


def expected(p, P, a, X):
    """Set of acceptable points (indices) or the last evaluated one."""
    if not is_dup(p, X):
        return 'suggestion', p[None, :]
    free = np.array([not is_dup(q, X) for q in P])
    if not free.any():
        return 'last', np.asarray(X)[-1][None, :]
    best = np.min(a[free])
    return 'nextbest', P[free & (a == best)]


def verify(mon, got, p, P, a, X, **ctx):
    what, ok = expected(p, P, a, X)
    mon.event('selection_' + what)
    good = any(np.array_equal(got, o) for o in ok)
    if what == 'suggestion' and not good:
        mon.fail('a new suggestion is evaluated as it is', got=got, want=ok[0], **ctx)
    elif what == 'nextbest' and not good:
        mon.fail('a repeated suggestion is replaced by the best unevaluated candidate', got=got, want=ok,
                 repeated=is_dup(got, X), **ctx)
    elif what == 'last' and not good:
        mon.fail('with only repeated candidates the latest point is evaluated again', got=got, want=ok, **ctx)
    mon.event('assertions')
    return what


def near_boundary(P, X):
    """A distance too close to the tolerance to be decided by rounding."""
    D = np.sqrt(np.sum((np.asarray(P)[:, None] - np.asarray(X)[None]) ** 2, axis=2))
    return bool(np.any((D > 0.9e-8) & (D < 1.1e-8)))


def run(case, mon):
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    d = gen.pick(rng, [1, 2, 3, 5, 12])
    if k == 'direct':
        from bayeso.utils import utils_bo
        R, _ = gen.box(rng, d, gen.pick(rng, ['unit', 'sym', 'negative', 'ints', 'offset', 'mixed', 'huge']))
        X = gen.inside(rng, R, gen.logint(rng, 1, 40) if gen.chance(rng, 0.6) else gen.logint(rng, 40, 900))
        if gen.chance(rng, 0.2) and len(X) > 1:
            X[-1] = X[0]
        P, a, mode = craft(rng, R, X, gen.logint(rng, 30, 400) if gen.chance(rng, 0.2) else None)
        if near_boundary(P, X):
            return
        got = utils_bo.get_next_best_acquisition(P, a, X)
        free = np.array([not is_dup(q, X) for q in P])
        if free.any():
            ok = P[free & (a == np.min(a[free]))]
            mon.check(any(np.array_equal(got, o) for o in ok), 'the best unevaluated candidate is selected', got=got,
                      want=ok, mode=mode, n=len(P))
        else:
            mon.check(np.array_equal(got, X[-1]), 'with only repeated candidates the latest point is returned', got=got,
                      want=X[-1])
        if not free.all():
            mon.key(k, mode, len(P), len(X), int(free.sum()), d)
        mon.note(candidates=len(P), evaluated=len(X), free=int(free.sum()), mode=mode)
        return
    if k == 'crafted':
        from bayeso import bo
        c = runs.config(rng, surrogate='gp', d=d)
        c['n_iter'] = int(rng.randint(1, 7))
        c['debug'] = gen.chance(rng, 0.15)
        if gen.chance(rng, 0.15) and c['entry'].startswith('class'):
            c['surrogate'] = 'tp'
        if gen.chance(rng, 0.15):
            c = runs.config(rng, surrogate='rf', d=d, entry=gen.pick(rng, ['class.optimize', 'class.inputs', 'class.all']))
            c['n_iter'] = int(rng.randint(1, 7))
        if gen.chance(rng, 0.15):        # long histories
            c['n_init'], c['n_iter'] = gen.logint(rng, 50, 500), int(rng.randint(1, 60))
        R, _ = gen.box(rng, d, gen.pick(rng, ['unit', 'sym', 'negative', 'ints', 'offset', 'mixed', 'huge']))
        f = gen.objective(rng, R)
        rec = runs.Recorder(f)
        X0 = Y0 = None
        if not c['entry'].endswith(('optimize', 'round')):
            X0 = gen.inside(rng, R, c['n_init'])
            Y0 = np.array([[f(x)] for x in X0])
        b, m = runs.build(c, R, rec)
        steps = []

        def optimize(X, Y, *args, **kw):
            while True:
                P, a, mode = craft(rng, R, X)
                if not near_boundary(P, X):
                    break
            i = int(np.argmin(a))
            steps.append((np.array(X, copy=True), P.copy(), a.copy(), P[i].copy(), mode))
            info = {'next_points': P, 'acquisitions': a, 'Y_original': Y, 'Y_normalized': Y,
                    'cov_X_X': np.eye(len(X)), 'inv_cov_X_X': np.eye(len(X)), 'hyps': {}, 'time_surrogate': 0.0,
                    'time_acq': 0.0, 'time_overall': 0.0}
            return P[i].copy(), info
        m.optimize = optimize
        res = runs.execute(c, b, m, rec, X0, Y0)
        X = np.asarray(res[0])
        off = len(X) - c['n_iter']
        mon.check(len(steps) == c['n_iter'], 'one step per iteration', got=len(steps), want=c['n_iter'])
        kinds = []
        for i, (Xh, P, a, p, mode) in enumerate(steps):
            if off + i < len(X):
                kinds.append(verify(mon, X[off + i], p, P, a, X[:off + i], config=c, step=i, mode=mode))
        if any(q != 'suggestion' for q in kinds):
            mon.key(k, c['entry'], c['surrogate'], ','.join(kinds))
        mon.note(entry=c['entry'], selections=kinds)
        return
    # real runs in which repeated suggestions are likely
    c = runs.config(rng, d=gen.pick(rng, [1, 1, 2]))
    rf = gen.chance(rng, 0.15)
    if rf:
        c = runs.config(rng, surrogate='rf', d=gen.pick(rng, [1, 1, 2]), entry=gen.pick(rng, ['class.optimize', 'class.inputs', 'class.all']))
    c['acq'] = gen.pick(rng, ['pure_exploit', 'ei', 'pi', 'ucb', 'pure_exploit'])
    c['n_iter'] = int(rng.randint(4, 10))
    c['samp'] = 'grid' if rf else gen.pick(rng, ['grid', 'sobol', 'uniform'])
    c['n_samp'] = 3 if c['samp'] == 'grid' else gen.pick(rng, [1, 2, 4])
    c['sel'] = 'ml'
    R, _ = gen.box(rng, c['d'], gen.pick(rng, ['unit', 'sym', 'ints']))
    f = gen.objective(rng, R, kind=gen.pick(rng, ['linear', 'const', 'step', 'quad', 'plateau']), scale=1.0)
    rec = runs.Recorder(f)
    X0 = Y0 = None
    if not c['entry'].endswith(('optimize', 'round')):
        X0 = gen.inside(rng, R, c['n_init'])
        if gen.chance(rng, 0.5):
            X0[0] = R[:, 0]
        Y0 = np.array([[f(x)] for x in X0])
    b, m = runs.build(c, R, rec)
    sp = runs.Spy(m)
    res = runs.execute(c, b, m, rec, X0, Y0)
    X = np.asarray(res[0])
    off = len(X) - c['n_iter']
    kinds = []
    for i, (Xh, Yh, p, info) in enumerate(sp.steps):
        P, a = np.asarray(info['next_points']), np.asarray(info['acquisitions'])
        if near_boundary(P, X[:off + i]):
            mon.event('undecidable_steps')
            continue
        kinds.append(verify(mon, X[off + i], p, P, a, X[:off + i], config=c, step=i))
    mon.event('real_steps', len(kinds))
    if any(q != 'suggestion' for q in kinds):
        mon.key(k, c['entry'], c['surrogate'], ','.join(kinds))
