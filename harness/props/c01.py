import time
import numpy as np
import core
import gen
import runs

RULE = ('A case is one instrumented run (random option combination, box, objective, entry point, possibly with an '
        'injected objective failure or repeated on one object). It is non-trivial when the objective was called in at '
        'least one iteration; distinct by entry/surrogate/acquisition/optimizers/sampling/kernel/criterion/dimension.')
ASSUMPTIONS = ['the wall clock (time.time) does not step backwards during a run',
               'scipydirect is not installed here, so DIRECT exercises its documented fallback']
TIMEOUT_IS_VIOLATION = True
CASE_LIMIT = 240


def plan(tier):
    k = 2 if tier == 'quick' else 14
    return [('run', 260 * k), ('fault', 130 * k), ('rf', 28 * k), ('cma', 12 * k), ('long', 10 * k),
            ('repeat', 24 * k), ('timing', 24 * k), ('wide', 16 * k), ('bignum', 6 * k), ('cma_degenerate', 2),
            ('magnitude', 40 * k), ('marathon', 60 * k)]


def check_trace(mon, c, rec, res, X0, Y0, R, wall, spy=None, n_init=None):
    ctx = {'config': c}
    if not mon.check(isinstance(res, tuple) and len(res) == 5, 'a run returns five arrays', **ctx):
        return
    X, Y, ta, ts, tq = [np.asarray(r) for r in res]
    d = R.shape[0]
    supplied = c['entry'].endswith('.all')
    n0 = len(X0) if X0 is not None else c['n_init']
    N = n0 + c['n_iter']
    mon.check(X.shape == (N, d), 'returned inputs: one row per initial point and iteration', got=X.shape,
              want=[N, d], **ctx)
    mon.check(Y.shape == (N, 1), 'returned outputs: one row per initial point and iteration', got=Y.shape,
              want=[N, 1], **ctx)
    if X.shape != (N, d) or Y.shape != (N, 1):
        return
    expect_calls = c['n_iter'] if supplied else N
    mon.check(len(rec.calls) == expect_calls, 'objective called exactly once per row without supplied value',
              calls=len(rec.calls), want=expect_calls, **ctx)
    mon.check(all(s == (d,) for s in rec.shapes), 'objective receives one point', shapes=rec.shapes[:5], **ctx)
    mon.event('objective_calls', len(rec.calls))
    if len(rec.calls) == expect_calls and expect_calls:
        rows = X[N - expect_calls:]
        mon.check(np.array_equal(rows, rec.xs()), 'rows are the evaluated points in evaluation order',
                  rows=rows[:6], calls=rec.xs()[:6], **ctx)
        mon.check(np.array_equal(Y[N - expect_calls:, 0], rec.ys()), 'outputs are the returned values, in order',
                  got=Y[N - expect_calls:, 0], want=rec.ys(), **ctx)
    if X0 is not None:
        mon.check(np.array_equal(X[:n0], X0), 'initial inputs come first, unchanged', **ctx)
    if supplied:
        mon.check(np.array_equal(Y[:n0], Y0), 'supplied outputs come first, unchanged', **ctx)
    # timing
    n_all = c['n_iter'] if supplied else N
    mon.check(ta.shape == (n_all,), 'overall times: one entry per timed evaluation', got=ta.shape, want=n_all, **ctx)
    mon.check(ts.shape == (c['n_iter'],), 'surrogate times: one entry per iteration', got=ts.shape, **ctx)
    mon.check(tq.shape == (c['n_iter'],), 'acquisition times: one entry per iteration', got=tq.shape, **ctx)
    for nm, t in (('overall', ta), ('surrogate', ts), ('acquisition', tq)):
        mon.check(bool(np.all(np.isfinite(t)) and np.all(t >= 0)), nm + ' times finite and non-negative', t=t, **ctx)
    if ta.shape == (n_all,) and ts.shape == tq.shape == (c['n_iter'],) and len(rec.calls) == n_all:
        dur = np.array([q[3] - q[2] for q in rec.calls])
        e = 1e-3
        mon.check(bool(np.all(ta >= dur - e)), 'overall time covers the evaluation', ta=ta, dur=dur, **ctx)
        it = ta[n_all - c['n_iter']:]
        di = dur[n_all - c['n_iter']:]
        mon.check(bool(np.all(it >= ts + tq + di - e)), 'overall time covers surrogate, acquisition and evaluation',
                  it=it, ts=ts, tq=tq, dur=di, **ctx)
        # upper bounds, by the median: a single entry may contain a preemption
        ends = np.array([q[3] for q in rec.calls])
        k0 = n_all - c['n_iter']
        if k0 >= 3:
            mon.check(float(np.median(ta[:k0] - dur[:k0])) <= 0.03, 'initial times are those of the evaluations', ta=ta[:k0], dur=dur[:k0], **ctx)
        if c['n_iter'] >= 4 and n_all > 1:
            gap = np.diff(ends)[-(c['n_iter'] - 1):]
            mon.check(float(np.median(it[1:] - gap)) <= 0.03, 'iteration times do not contain other iterations', it=it, gap=gap, **ctx)
        mon.check(float(np.sum(ta)) <= wall + e, 'overall times do not exceed the time of the whole run',
                  total=float(np.sum(ta)), wall=wall, **ctx)
    if spy is not None and len(spy.steps) == c['n_iter']:
        mon.event('steps_spied', len(spy.steps))
        mon.check(np.allclose(ts, [s[3]['time_surrogate'] for s in spy.steps], rtol=0, atol=1e-12),
                  'surrogate times are those of the steps', **ctx)
        mon.check(np.allclose(tq, [s[3]['time_acq'] for s in spy.steps], rtol=0, atol=1e-12),
                  'acquisition times are those of the steps', **ctx)
        for i, s in enumerate(spy.steps):
            mon.check(np.array_equal(s[0], X[:n0 + i]) and np.array_equal(s[1], Y[:n0 + i]),
                      'each step sees the whole history so far', step=i, **ctx)
    if c['n_iter'] and len(rec.calls):
        mon.key(*runs.key(c))
    mon.note(config=c, rows=N, calls=len(rec.calls), first=X[:2], last_y=float(Y[-1, 0]))


def one(mon, rng, c, fail_at=None, sleeps=None, flavour=None, spy=True, objective=None, runs_n=1,
        scale=None, off=None, stub=False, slow_prior=0):
    R, fl = gen.box(rng, c['d'], flavour)
    if flavour is None and c.get('opt_bo') != 'CMA-ES' and gen.chance(rng, 0.04):
        R[:, 1], fl = R[:, 0], 'point'         # the only point is evaluated again and again
    f = gen.objective(rng, R, kind=objective, scale=scale, off=off)
    c = dict(c, box=fl, obj=f.kind, scale=f.scale)
    prior = gen.prior_fun(rng, c['prior']) if c.get('prior') else None
    slept = []
    if slow_prior:
        base = prior or (lambda Z: np.zeros((len(Z), 1)))

        def prior(Z):
            if len(slept) < 60:
                t0 = time.time()
                time.sleep(slow_prior)
                slept.append(time.time() - t0)
            return base(Z)
    rec = runs.Recorder(f, ret=c['ret'], fail_at=fail_at, sleeps=sleeps, scribble=gen.chance(rng, 0.25))
    c['scribble'] = rec.scribble
    X0 = Y0 = None
    if not c['entry'].endswith(('optimize', 'round')):
        X0, Y0 = supply(rng, c, R, f, stub)
    b, m = runs.build(c, R, rec, prior)
    if stub:
        stub_step(rng, m, R)
    mon.event('runs')
    for k in range(runs_n):
        rec.calls, rec.shapes = [], []
        s = runs.Spy(m) if spy and k == 0 else None
        t = time.time()
        X0c = None if X0 is None else X0.copy()
        res = runs.execute(c, b, m, rec, X0, Y0)
        if X0 is not None:
            mon.check(np.array_equal(X0, X0c), 'the initial inputs of the caller are left alone', config=c)
        wall = time.time() - t
        check_trace(mon, c, rec, res, X0, Y0, R, wall, s)
        if slow_prior and len(res) == 5:
            tot = float(np.sum(res[3]) + np.sum(res[4]))
            mon.check(tot >= sum(slept) - 1e-3, 'surrogate and acquisition times contain the time spent in the prior mean',
                      reported=tot, slept=sum(slept), config=c)
            mon.event('slow_prior_calls', len(slept))
        if X0 is None and c['seed'] is not None:
            init = m.get_initials(c['init'], c['n_init'], seed=c['seed'])
            mon.check(np.array_equal(np.asarray(res[0])[:c['n_init']], init),
                      'a seeded run starts from the seeded initial points', config=c)
    return res


def supply(rng, c, R, f, stub):
    """Initial information given by the caller: with repeats, of other types and memory layouts."""
    n = c['n_init']
    X0 = gen.inside(rng, R, n)
    lay = gen.pick(rng, ['plain', 'plain', 'int', 'readonly', 'fortran', 'strided'] + (['float32'] if stub else []))
    if lay == 'int':
        lo, hi = np.ceil(R[:, 0]), np.floor(R[:, 1])
        if np.all(lo <= hi):
            X0 = np.array([[rng.randint(int(a), int(b) + 1) for a, b in zip(lo, hi)] for _ in range(n)])
    if gen.chance(rng, 0.25) and n > 1:
        for _ in range(gen.pick(rng, [1, 2])):       # repeated measurements, next to each other or not
            i = int(rng.randint(1, n))
            X0[i] = X0[i - 1 if gen.chance(rng, 0.6) else rng.randint(i)]
    if lay != 'int' and gen.chance(rng, 0.3):     # measurements taken outside the box belong to the history as well
        w = np.maximum(R[:, 1] - R[:, 0], 1e-3)
        for i in np.where(rng.rand(n) < 0.5)[0]:
            j = rng.randint(len(w))
            X0[i, j] = R[j, 1] + w[j] * rng.uniform(1e-3, 0.5) if gen.chance(rng, 0.5) else R[j, 0] - w[j] * rng.uniform(1e-3, 0.5)
        c['outside'] = True
    Y0 = None
    if c['entry'].endswith('.all'):
        Y0 = np.array([[f(x)] for x in X0])
        if gen.chance(rng, 0.3):     # supplied values need not be the objective's
            Y0 = Y0 + 0.1 * f.scale * rng.randn(n, 1)
        if lay == 'int' or gen.chance(rng, 0.1):
            Y0 = np.clip(np.round(Y0), -2 ** 40, 2 ** 40).astype(int)
    if lay == 'float32':
        X0 = (X0 if c.get('outside') else np.clip(X0.astype('float32'), R[:, 0], R[:, 1])).astype('float32')
        Y0 = None if Y0 is None else Y0.astype('float32')
    elif lay == 'readonly':
        X0.setflags(write=False)
        if Y0 is not None:
            Y0.setflags(write=False)
    elif lay == 'fortran':
        X0 = np.asfortranarray(X0)
    elif lay == 'strided':
        Z = np.zeros((2 * n, X0.shape[1] + 1), dtype=X0.dtype)
        Z[::2, 1:] = X0
        X0 = Z[::2, 1:]
        if Y0 is not None:
            W = np.zeros((3 * n, 2), dtype=Y0.dtype)
            W[::3, 1:] = Y0
            Y0 = W[::3, 1:]
    return X0, Y0


def stub_step(rng, m, R):
    """Replaces the optimizer's step by one which proposes random points, so that long runs are affordable."""
    def optimize(X, Y, *args, **kw):
        P = gen.inside(rng, R, int(rng.randint(1, 4)))
        a = -rng.rand(len(P))
        t = [float(q) for q in 1e-7 * rng.rand(2)]
        return P[int(np.argmin(a))].copy(), {
            'next_points': P, 'acquisitions': a, 'Y_original': Y, 'Y_normalized': Y, 'cov_X_X': np.eye(1),
            'inv_cov_X_X': np.eye(1), 'hyps': {}, 'time_surrogate': t[0], 'time_acq': t[1],
            'time_overall': t[0] + t[1]}
    m.optimize = optimize


def run(case, mon):
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    if k == 'run':
        one(mon, rng, runs.config(rng))
    elif k == 'rf':
        c = runs.config(rng, surrogate='rf', entry=gen.pick(rng, ['class.optimize', 'class.inputs', 'class.all']))
        c['n_iter'] = gen.pick(rng, [1, 2])
        one(mon, rng, c)
    elif k == 'cma':
        c = runs.config(rng, opt_bo='CMA-ES', d=gen.pick(rng, [1, 2, 3]))
        c['n_iter'] = 1
        one(mon, rng, c)
    elif k == 'long':
        c = runs.config(rng)
        c['n_iter'] = int(rng.randint(10, 22))
        c['n_samp'] = 1
        one(mon, rng, c)
    elif k == 'wide':
        c = runs.config(rng, d=gen.pick(rng, [5, 6, 8]))
        if c['samp'] == 'grid':
            c['samp'] = 'sobol'
        c['n_iter'] = gen.pick(rng, [1, 2])
        c['n_samp'] = 1
        c['opt_gp'] = gen.pick(rng, ['BFGS', 'L-BFGS-B', 'SLSQP-Bounded'])
        one(mon, rng, c)
    elif k == 'bignum':
        c = runs.config(rng)
        c['n_init'] = int(rng.randint(20, 45))
        c['n_iter'] = gen.pick(rng, [1, 2])
        c['sel'] = 'ml'
        c['n_samp'] = 1 if c['samp'] != 'grid' else 2
        one(mon, rng, c)
    elif k == 'repeat':
        c = runs.config(rng)
        c['n_iter'] = gen.pick(rng, [1, 2])
        one(mon, rng, c, runs_n=2, spy=False)
        mon.event('repeated_runs')
    elif k == 'timing':
        c = runs.config(rng)
        c['n_samp'] = 1 if c['samp'] != 'grid' else 2
        n = c['n_iter'] + (0 if c['entry'].endswith('.all') else c['n_init'])
        sl = {int(i): float(rng.uniform(0.02, 0.08)) for i in rng.choice(n, min(n, 4), replace=False)}
        one(mon, rng, c, sleeps=sl, slow_prior=0.003 * gen.chance(rng, 0.6))
        mon.event('sleeping_objectives', len(sl))
    elif k == 'fault':
        c = runs.config(rng)
        n = c['n_iter'] + (0 if c['entry'].endswith('.all') else c['n_init'])
        at = int(rng.randint(n))
        R, fl = gen.box(rng, c['d'])
        f = gen.objective(rng, R)
        exc = KeyboardInterrupt if gen.chance(rng, 0.12) else gen.pick(rng, runs.FAULTS)
        rec = runs.Recorder(f, ret=c['ret'], fail_at=at, exc=exc)
        X0 = Y0 = None
        if not c['entry'].endswith(('optimize', 'round')):
            X0 = gen.inside(rng, R, c['n_init'])
            Y0 = np.array([[f(x)] for x in X0])
        b, m = runs.build(c, R, rec)
        X0c, Y0c = (None if X0 is None else X0.copy()), (None if Y0 is None else Y0.copy())
        got = None
        try:
            runs.execute(c, b, m, rec, X0, Y0)
        except core.CaseTimeout:
            raise
        except BaseException as e:  # noqa
            got = e
        mon.check(got is not None and got is rec.exc, 'an exception of the objective reaches the caller', config=c, at=at)
        mon.check(len(rec.calls) == at + 1, 'a failing objective is not called again', calls=len(rec.calls), at=at,
                  config=c)
        if X0 is not None:
            mon.check(np.array_equal(X0, X0c) and np.array_equal(Y0, Y0c), 'a failed run leaves its inputs alone')
        mon.event('injected_failures')
        # the object stays usable
        rec.fail_at = None
        rec.calls, rec.shapes = [], []
        t = time.time()
        res = runs.execute(c, b, m, rec, X0, Y0)
        check_trace(mon, c, rec, res, X0, Y0, R, time.time() - t)
        mon.key('fault', at, c['entry'], c['surrogate'], type(rec.exc).__name__)
    elif k == 'magnitude':
        # objective values far from one, in magnitude or in sign
        c = runs.config(rng)
        c['n_iter'] = gen.pick(rng, [1, 2, 3])
        c['normalize'] = True
        c['n_samp'] = 1 if c['samp'] != 'grid' else 2
        c['prior'] = None
        c['sel'] = 'ml'
        sc = 10 ** rng.uniform(-8, 9)
        one(mon, rng, c, scale=sc, off=gen.pick(rng, [0.0, 1.0, -1.0]) * sc * 10 ** rng.uniform(-1, 2))
        mon.event('extreme_objectives')
    elif k == 'marathon':
        c = runs.config(rng, surrogate=gen.pick(rng, ['gp', 'tp', 'rf'], [0.5, 0.3, 0.2]), d=gen.pick(rng, [1, 2, 3, 5, 12, 25]))
        if c['surrogate'] == 'rf' and c['entry'].startswith('fn.'):
            c['entry'] = 'class.' + {'round': 'optimize', 'inputs': 'inputs', 'all': 'all'}[c['entry'][3:]]
        c['n_iter'] = gen.logint(rng, 10, 700)
        c['n_init'] = gen.logint(rng, 1, 400)
        sc = 10 ** rng.uniform(-8, 9)
        off = gen.pick(rng, [0.0, 1.0, -1.0]) * sc * 10 ** rng.uniform(-1, 2)
        one(mon, rng, c, stub=True, scale=sc, off=off)
        mon.event('long_runs')
        mon.event('long_run_iterations', c['n_iter'])
    elif k == 'cma_degenerate':
        # documented known finding: CMA-ES cannot handle a box with an empty dimension
        R = np.array([[0.0, 1.0], [0.5, 0.5], [-1.0, 1.0]])
        s = ['gp', 'tp'][case['i'] % 2]
        c = {'entry': 'class.optimize', 'surrogate': s, 'd': 3, 'acq': 'ei', 'normalize': True, 'init': 'sobol',
             'samp': 'sobol', 'debug': False, 'exp': None, 'n_init': 3, 'n_iter': 1, 'n_samp': 2, 'seed': 1,
             'ret': 'float', 'cov': 'matern52', 'ard': True, 'opt_gp': 'BFGS', 'opt_tp': 'SLSQP',
             'opt_bo': 'CMA-ES', 'mlm': 'regular', 'sel': 'ml'}
        rec = runs.Recorder(lambda x: float(np.sum((x - 0.2) ** 2)))
        b, m = runs.build(c, R, rec)
        try:
            t = time.time()
            res = runs.execute(c, b, m, rec)
        except ValueError as e:
            if 'Lower bounds need to be smaller than upper bounds' not in str(e) or len(rec.calls) != 3:
                raise
            mon.check(True, 'known finding reproduced')
            mon.finding('cma-es-degenerate-dimension', error=str(e)[:100])
            return
        check_trace(mon, c, rec, res, None, None, R, time.time() - t)
    else:
        raise ValueError(k)
