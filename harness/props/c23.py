import numpy as np
import gen
import ref
import post

RULE = ('A case is a whole run of one surrogate, acquisition, kernel, box and objective whose best output is ranked '
        'against uniform random search of the same number of evaluations (probability that random search does at '
        'least as well, from 40000 uniform points), or one optimization step with pure exploitation or exploration '
        'whose suggestion is compared with a dense search of the reported posterior over the box. The verdict on '
        'progress is on the mean rank per surrogate, per acquisition, per box and per output scaling. Non-trivial: '
        'every completed run and every step whose posterior was not constant.')
ASSUMPTIONS = ['the mean rank of a search no better than random is 0.5; only groups of at least 30 runs (and whole surrogates) are judged']
CASE_LIMIT = 200

BOXES = ['unit', 'sym', 'negative', 'offset', 'ints', 'narrow']


def plan(tier):
    k = 1 if tier == 'quick' else 8
    return [('run', 192 * k), ('trees', 21 * k), ('pure', 120 * k), ('ts', 16 * k), ('extreme', 180 * k), ('starts', 480 * k)]


def smooth(rng, R, scale, off):
    """Smooth multimodal objective of the box-normalised input."""
    lo, hi = R[:, 0], R[:, 1]
    d = len(lo)
    c = rng.uniform(0.15, 0.85, d)
    a = rng.uniform(0.7, 1.5, d)
    ph = rng.uniform(0, 6)
    amp = rng.uniform(0, 0.25 if d == 1 else 0.1)

    def f(x):
        u = (np.atleast_2d(np.asarray(x, float)) - lo) / (hi - lo)
        v = np.sum(a * (u - c) ** 2, axis=1) + amp * np.sin(7 * u.sum(axis=1) + ph)
        r = off + scale * v
        return r if np.ndim(x) == 2 else float(r[0])
    return f


def mk_box(rng, d, fl):
    if fl == 'narrow':
        w = rng.uniform(0.5, 1.5, d)
        w[rng.randint(d)] *= 0.1
        lo = rng.uniform(-3, 3, d)
        return np.stack([lo, lo + w], 1)
    return gen.box(rng, d, fl)[0]


def rank(rng, f, R, best, n):
    V = f(gen.inside(rng, R, 40000))
    p = (np.sum(V <= best) + 0.5) / (len(V) + 1.0)
    return float(1.0 - (1.0 - p) ** n)


def run(case, mon):
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    if k == 'pure':
        return pure(rng, mon, case['i'])
    if k in ('extreme', 'starts'):
        return extreme(rng, mon, case['i'], k)
    i = case['i']
    d = 1 if k == 'trees' else gen.pick(rng, [1, 2], [0.6, 0.4])
    fl = gen.pick(rng, BOXES)
    R = mk_box(rng, d, fl)
    scale = [1.0, 1e-3, 1e3][rng.randint(3)]
    off = [0.0, 5.0, -1e2][rng.randint(3)] * scale
    f = smooth(rng, R, scale, off)
    n0, it = 2 + d, 8 + 6 * (d - 1)
    if k == 'trees':
        n0, it = 6, 14
    if k == 'ts':
        from bayeso import thompson_sampling as ts
        sur, acq = 'ts', 'ts'
        X, Y = ts.thompson_sampling_gp(R, f, n0, it, normalize_Y=True, str_sampling_method='uniform', num_samples=200)
    else:
        from bayeso import wrappers
        sur = 'rf' if k == 'trees' else ['gp', 'tp', 'gp'][i % 3]
        acq = ['ei', 'pi', 'aei', 'ucb'][i % 3 if sur == 'rf' else (i // 3) % 4]
        kw = dict(str_surrogate=sur, str_acq=acq, num_samples_ao=12, str_initial_method_bo=gen.pick(rng, gen.SAMP[:1] + gen.SAMP[2:]))
        if sur == 'rf':
            kw.update(str_optimizer_method_bo='random_search', num_samples_ao=120)
        else:
            kw.update(str_cov=gen.pick(rng, gen.COV), use_ard=gen.chance(rng, 0.5),
                      str_mlm_method=gen.pick(rng, gen.MLM) if sur == 'gp' and scale == 1.0 else 'regular')
        b = wrappers.BayesianOptimization(R, f, it, **kw)
        X, Y, *_ = b.optimize(n0, seed=int(rng.randint(10 ** 6)))
    best = float(np.min(Y))
    p = rank(rng, f, R, best, len(Y))
    mon.check(len(Y) == n0 + it, 'the run used its budget', rows=len(Y))
    for g in ['sur:' + sur, 'acq:' + acq, 'pair:%s:%s' % (sur, acq)] + \
            (['box:' + fl, 'scale:%g' % scale, 'dim:%d' % d] if sur in ('gp', 'tp') else []) + \
            (['mlm:' + kw['str_mlm_method']] if sur == 'gp' else []) + \
            (['cov:' + kw['str_cov'], 'ard:%s' % kw['use_ard']] if sur in ('gp', 'tp') else []):
        mon.event('N ' + g)
        mon.event('R ' + g, int(round(1000 * p)))
    mon.key(k, sur, acq, fl, scale, off / scale, d)
    mon.note(surrogate=sur, acquisition=acq, box=R, best=best, rank_vs_random=p)


def final(events, mon, tier):
    import os
    for g in sorted(e[2:] for e in events if e.startswith('N ')):
        n = events['N ' + g]
        m = events['R ' + g] / 1000.0 / n
        if os.environ.get('C23_DUMP'):
            print('%-22s n=%d mean rank=%.3f' % (g, n, m))
        if n < 30 and not g.startswith('sur:'):
            continue
        # standard error of the mean of n uniform ranks: 0.29 / sqrt(n)
        mon.check(m < LIMIT(g, n), 'runs do clearly better than random search', group=g, runs=n, mean_rank=m, limit=LIMIT(g, n))


    # share of steps whose suggestion misses the best known acquisition value by more than a twentieth of its spread
    for g in sorted(e[3:] for e in events if e.startswith('EN ')):
        n, b = events['EN ' + g], events.get('EB ' + g, 0)
        if os.environ.get('C23_DUMP'):
            print('%-30s n=%d missed=%d' % (g, n, b))
        if n >= 25:
            lim = {'starts': 0.05, 'extreme:all': 0.1, 'extreme:aei': 0.3, 'local:all': 0.12, 'local:gp': 0.14, 'local:tp': 0.14}.get(g, 0.04 if g.startswith('searches') else 0.2)
            mon.check(b <= max(lim * n, 5), 'suggestions attain the largest acquisition value (extreme: over the box, with many starts; starts: over the starting points; local: over the surroundings; searches: by local searches from the starting points)',
                      group=g, steps=n, missed=b, allowed=max(lim * n, 5))


def extreme(rng, mon, i, k):
    """The acquisition value of a suggestion against a dense search and against the starting points."""
    from bayeso import bo
    acq = ['ei', 'pi', 'ucb', 'aei', 'pure_exploit', 'pure_explore'][i % 6]
    sur = ['gp', 'tp'][(i // 6) % 2]
    d = gen.pick(rng, [1, 2, 3], [.4, .4, .2])
    sc = 10 ** gen.pick(rng, [-2.0, -1.0, 0.0, 1.0, 2.0])
    R = mk_box(rng, d, gen.pick(rng, BOXES)) * sc
    f = smooth(rng, R, gen.pick(rng, [1.0, 1e-3, 1e3]), rng.uniform(-3, 3))
    X = gen.inside(rng, R, gen.pick(rng, [3, 5, 8, 12]))
    Y = f(X)[:, None]
    kw = dict(str_cov=gen.pick(rng, gen.COV), str_acq=acq, use_ard=gen.chance(rng, 0.5), str_optimizer_method_bo=gen.pick(rng, ['L-BFGS-B', 'DIRECT'], [.8, .2]))
    m = bo.BOwGP(R, **kw) if sur == 'gp' else bo.BOwTP(R, **kw)
    ns = [64, 90, 120][d - 1] if k == 'extreme' else gen.pick(rng, [1, 2, 4, 7, 12])
    seed = int(rng.randint(10 ** 6))
    meth = gen.pick(rng, ['sobol', 'halton', 'uniform'])
    p, info = m.optimize(X, Y, str_sampling_method=meth, num_samples=ns, seed=seed)
    G = gen.inside(rng, R, 2500) if k == 'extreme' else m.get_samples(meth, num_samples=ns, seed=seed)
    v = np.asarray(m.compute_acquisitions(np.vstack([p[None], G]), X, info['Y_normalized'], info['cov_X_X'], info['inv_cov_X_X'], info['hyps']), float).reshape(-1)
    if not np.ptp(v) > 1e-5 * np.max(np.abs(v)):
        mon.event('flat_acquisition')
        return
    gap = (np.max(v) - v[0]) / np.ptp(v)
    mon.event('assertions')
    for g in (['starts'] if k == 'starts' else ['extreme:' + sur, 'extreme:%s' % acq, 'extreme:scale %g' % sc, 'extreme:dim %d' % d, 'extreme:all']):
        mon.event('EN ' + g)
        mon.event('EB ' + g, int(gap > 0.05))
    if k == 'starts' and m.str_optimizer_method_bo == 'L-BFGS-B':
        # local searches of our own from the starting points hardly find anything better than the suggestion
        from scipy.optimize import minimize

        def negx(x):
            return -float(np.asarray(m.compute_acquisitions(np.asarray(x)[None], X, info['Y_normalized'], info['cov_X_X'], info['inv_cov_X_X'], info['hyps'])).reshape(-1)[0])
        top = max(-minimize(negx, g, method='L-BFGS-B', bounds=[tuple(b) for b in R]).fun for g in G)
        for g in ('searches:' + sur, 'searches:' + ('one' if ns == 1 else 'some'), 'searches:%s:%s' % (sur, 'few' if ns <= 4 else 'many'), 'searches:all'):
            mon.event('EN ' + g)
            mon.event('EB ' + g, int(top - v[0] > 0.02 * np.ptp(v)))
    if k == 'starts':
        # the suggestion is a local optimum: an ascent of our own from it gains (nearly) nothing
        w = R[:, 1] - R[:, 0]

        def neg(u):
            x = np.clip(R[:, 0] + w * u, R[:, 0], R[:, 1])[None]
            return -float(np.asarray(m.compute_acquisitions(x, X, info['Y_normalized'], info['cov_X_X'], info['inv_cov_X_X'], info['hyps'])).reshape(-1)[0])
        H = gen.inside(rng, R, 400)
        vh = np.asarray(m.compute_acquisitions(H, X, info['Y_normalized'], info['cov_X_X'], info['inv_cov_X_X'], info['hyps']), float).reshape(-1)
        spread = max(np.ptp(vh), np.ptp(v))
        best = v[0]
        u0 = (p - R[:, 0]) / w
        for r in (1e-3, 1e-2):
            for _ in range(12 * d):
                best = max(best, -neg(np.clip(u0 + r * rng.randn(d), 0, 1)))
        gain = (best - v[0]) / spread
        for g in ('local:' + sur, 'local:' + acq, 'local:all'):
            mon.event('EN ' + g)
            mon.event('EB ' + g, int(gain > 0.005))
    mon.key(k, acq, sur, d, sc, ns)
    mon.note(acquisition=acq, surrogate=sur, relative_gap=float(gap))


def LIMIT(g, n):
    """Measured means on the unchanged tree: 0.04-0.25 (Gaussian, Student-t, Thompson), 0.2-0.3 (trees, narrow boxes)."""
    if g in ('sur:gp', 'sur:tp', 'dim:1') or g.startswith('scale:'):
        return 0.3
    if g == 'sur:ts':
        return 0.35
    return 0.46


def pure(rng, mon, i):
    from bayeso import bo
    acq = ['pure_exploit', 'pure_explore'][i % 2]
    sur = ['gp', 'tp'][(i // 2) % 2]
    d = gen.pick(rng, [1, 2], [0.5, 0.5])
    fl = gen.pick(rng, BOXES)
    R = mk_box(rng, d, fl)
    f = smooth(rng, R, 1.0, rng.uniform(-3, 3))
    n = gen.pick(rng, [3, 5, 8, 12])
    X = gen.inside(rng, R, n)
    Y = f(X)[:, None]
    cov = gen.pick(rng, gen.COV)
    norm = gen.chance(rng, 0.7)
    kw = dict(str_cov=cov, str_acq=acq, normalize_Y=norm, use_ard=gen.chance(rng, 0.5))
    m = bo.BOwGP(R, **kw) if sur == 'gp' else bo.BOwTP(R, **kw)
    p, info = m.optimize(X, Y, str_sampling_method=gen.pick(rng, ['sobol', 'uniform', 'halton']), num_samples=64 if d == 1 else 100,
                         seed=int(rng.randint(10 ** 6)))
    Yn = ref.normalize(Y) if norm else Y
    G = gen.inside(rng, R, 1500)
    G = np.vstack([G, R.T if d == 1 else np.array([[R[0, a], R[1, b]] for a in (0, 1) for b in (0, 1)]), X])
    if d == 1:
        G = np.vstack([G, np.linspace(R[0, 0], R[0, 1], 1001)[:, None]])
    else:
        g = np.linspace(0, 1, 101)
        for q in range(2):
            for e in (0, 1):
                E = np.zeros((101, 2))
                E[:, q] = R[q, 0] + g * (R[q, 1] - R[q, 0])
                E[:, 1 - q] = R[1 - q, e]
                G = np.vstack([G, np.clip(E, R[:, 0], R[:, 1])])
    Q = np.vstack([p[None], G])
    mu, var, tm, tv = post.from_inverse(cov, X, Yn, Q, np.asarray(info['inv_cov_X_X']), info['hyps'], None, tp=(sur == 'tp'))
    if acq == 'pure_exploit':
        v, t = mu, tm
    else:
        lo, sd, hi = post.std_interval(var, tv)
        v, t = -sd, hi - lo
    spread = float(np.ptp(v))
    if spread <= 1e-6 * (1 + np.max(np.abs(v))) or np.max(t) > 0.01 * spread:
        mon.event('flat_or_undecidable')
        return
    gap = (v[0] - np.min(v)) / spread
    mon.event('gap_milli', int(1000 * gap))
    mon.event('pure_steps')
    if gap > 0.01:
        mon.event('gap_above_1pct')
    mon.check(gap <= 0.05 + np.max(t) / spread * 2, 'the suggestion attains the extreme of the posterior over the box', acq=acq,
              surrogate=sur, box=R, gap=gap, suggestion=p, better=Q[int(np.argmin(v))], cov=cov)
    mon.key('pure', acq, sur, d, fl, cov, norm)
    mon.note(acquisition=acq, relative_gap=gap)
