import numpy as np
import gen
import runs

RULE = ('A case summarizes several rounds (convergence or time), of synthetic histories or of real runs, or selects a best '
        'entry, and compares with independent prefix computations. Non-trivial when there are at least two steps; distinct '
        'by kind, rounds, steps, initial points and data style.')


def plan(tier):
    k = 4 if tier == 'quick' else 60
    return [('minimum', 900 * k), ('time', 900 * k), ('best', 500 * k), ('evalbest', 500 * k), ('real', 5 * k)]


def series(rng, r, n):
    st = gen.pick(rng, ['normal', 'ties', 'increasing', 'decreasing', 'const', 'neg', 'wide', 'huge_offset', 'outlier', 'nearties', 'huge', 'int'])
    Y = rng.randn(r, n)
    if st == 'ties':
        Y = np.round(Y)
    elif st == 'increasing':
        Y = np.sort(Y, axis=1)
    elif st == 'decreasing':
        Y = -np.sort(Y, axis=1)
    elif st == 'const':
        Y[:] = 1.5
    elif st == 'neg':
        Y = -np.abs(Y) - 3
    elif st == 'wide':
        Y = Y * 10 ** rng.uniform(-6, 6, (r, n))
    elif st == 'huge_offset':
        Y = Y + gen.pick(rng, [-1.0, 1.0]) * 10 ** rng.uniform(4, 12)
    elif st == 'outlier':
        Y[rng.randint(r), rng.randint(n)] = gen.pick(rng, [-1.0, 1.0]) * 10 ** rng.uniform(2, 10)
    elif st == 'nearties':
        Y = np.round(Y) + 10 ** rng.uniform(-13, -6) * rng.randn(r, n)
    elif st == 'huge':
        Y = Y * 10 ** rng.uniform(6, 100)
    elif st == 'int':
        Y = rng.randint(-10 ** 6, 10 ** 6, (r, n))
    return Y, st


def summary(mon, Y, ni, out, ctx):
    r, n = Y.shape
    steps = n - ni + 1
    if not mon.check(len(out) == 4 and np.shape(out[0]) == (r, steps) and all(np.shape(o) == (steps,) for o in out[1:]),
                     'one entry for the initial points and one per further evaluation', shapes=[np.shape(o) for o in out], **ctx):
        return
    M = np.empty((r, steps))
    for i in range(r):
        for j in range(steps):
            M[i, j] = sorted(Y[i, :ni + j])[0] if ni + j else np.inf
    mon.check(np.array_equal(out[0], M), 'running minimum of each round', got=np.asarray(out[0])[0], want=M[0], **ctx)
    if not np.all(np.isfinite(M)):
        return
    mean = M.sum(axis=0) / r
    sd = np.sqrt(np.sum((M - mean) ** 2, axis=0) / (r - 1)) if r > 1 else np.zeros(steps)
    sc = np.max(np.abs(M)) + 1e-300
    mon.close(out[1], mean, 'mean over rounds', rtol=1e-10, atol=1e-12 * sc, **ctx)
    mon.close(out[2], sd, 'sample standard deviation over rounds', rtol=1e-8, atol=1e-12 * sc, **ctx)
    mon.close(out[3], sd / np.sqrt(r), 'standard error over rounds', rtol=1e-8, atol=1e-12 * sc, **ctx)


def run(case, mon):
    from bayeso.utils import utils_common as uc, utils_bo as ub
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    r = gen.pick(rng, [1, 2, 3, 10, 30, gen.logint(rng, 1, 200)])
    n = gen.pick(rng, [2, 3, 6, 15, 50, gen.logint(rng, 2, 400)])
    if k == 'minimum':
        ni = int(rng.randint(1, n))
        Y, st = series(rng, r, n)
        ctx = dict(rounds=r, n=n, num_init=ni, style=st)
        summary(mon, Y, ni, uc.get_minimum(Y, ni), ctx)
        mon.key(k, r, n, ni, st)
        mon.note(**ctx)
    elif k == 'time':
        ni = int(rng.randint(1, n))
        inc = gen.chance(rng, 0.5)
        ni = int(gen.pick(rng, [ni, 0], [.9, .1]))
        T = np.abs(rng.randn(r, n)) * 10 ** rng.uniform(-4, 3)
        st = gen.pick(rng, ['plain', 'zeros', 'slow', 'spread', 'int'])
        if st == 'zeros':
            T[rng.rand(r, n) < 0.4] = 0.0
        elif st == 'slow':            # one round or one evaluation much slower than the others
            T[rng.randint(r), :] *= 1e4
            T[:, rng.randint(n)] *= 1e3
        elif st == 'spread':
            T = T * 10 ** rng.uniform(-6, 6, (r, n))
        elif st == 'int':
            T = rng.randint(0, 100, (r, n))
        got = uc.get_time(T, ni, inc)
        U = T[:, ni:] if inc else T
        want = np.zeros(U.shape[1] + 1)
        for j in range(1, len(want)):
            want[j] = np.mean([sum(u[:j]) for u in U])
        ctx = dict(rounds=r, n=n, num_init=ni, include_init=inc)
        if mon.check(np.shape(got) == want.shape, 'one entry per timed evaluation and the start', got=np.shape(got), want=want.shape, **ctx):
            mon.check(got[0] == 0.0, 'the clock starts at zero', got=got[0], **ctx)
            mon.check(bool(np.all(np.diff(got) >= 0)), 'the clock does not run backwards', **ctx)
            mon.close(got, want, 'mean cumulative time', rtol=1e-9, atol=1e-12 * T.max(), **ctx)
        mon.key(k, r, n, ni, inc)
    elif k == 'best':
        d = gen.pick(rng, [1, 2, 4, 15])
        m = gen.pick(rng, [1, 2, 5, 20, gen.logint(rng, 20, 700)])
        Y, st = series(rng, m, 1)
        X = rng.randn(m, d)
        x, y = ub.get_best_acquisition_by_history(X, Y)
        i = int(np.argmin(Y[:, 0]))
        ctx = dict(m=m, d=d, style=st)
        mon.check(float(np.squeeze(y)) == Y.min(), 'the smallest output', got=y, want=Y.min(), **ctx)
        hit = [j for j in range(m) if np.array_equal(np.asarray(x).reshape(-1), X[j])]
        mon.check(np.shape(x) == (d,) and len(hit) == 1 and Y[hit[0], 0] == Y.min(), 'the input belonging to the smallest output', got=x, want=X[i], **ctx)
        if m > 1:
            mon.key(k, d, m, st)
    elif k == 'evalbest':
        d = gen.pick(rng, [1, 2, 4, 15])
        m = gen.pick(rng, [1, 2, 5, 20, gen.logint(rng, 20, 700)])
        Z = rng.randn(m, d)
        V, st = series(rng, m, 1)
        calls = []
        how = gen.pick(rng, ['float', 'arr1', 'np', 'arr11'])

        def f(z):
            calls.append(np.array(z, copy=True).reshape(-1))
            j = [q for q in range(m) if np.array_equal(Z[q], calls[-1])]
            return gen.wrap_return(float(V[j[0], 0]) if j else 1e99, how)
        b = ub.get_best_acquisition_by_evaluation(Z, f)
        ctx = dict(m=m, d=d, style=st, ret=how)
        hit = [j for j in range(m) if np.array_equal(np.asarray(b).reshape(-1), Z[j])]
        mon.check(np.shape(b) == (1, d) and len(hit) == 1 and V[hit[0], 0] == V.min(), 'the starting point with the smallest value', got=b, **ctx)
        mon.check(all(any(np.array_equal(c, z) for c in calls) for z in Z), 'every starting point is evaluated', calls=len(calls), **ctx)
        if m > 1:
            mon.key(k, d, m, st, how)
    else:
        # real rounds, from the run to the summary
        d = gen.pick(rng, [1, 2])
        R, fl = gen.box(rng, d, 'sym')
        f = gen.objective(rng, R, 'quad')
        c = runs.config(rng, 'gp', d=d, entry='class.optimize')
        c.update(n_init=gen.pick(rng, [2, 3]), n_iter=3, debug=False)
        ys, ts, lens = [], [], set()
        for s in range(3):
            rec = runs.Recorder(f)
            b, m = runs.build(c, R, rec)
            X, Y, t, *_ = runs.execute(dict(c, seed=s), b, m, rec)
            ys.append(rec.ys())
            ts.append(t)
            lens.add(len(t))
        Y = np.array(ys)
        ctx = dict(rounds=3, n=Y.shape[1], num_init=c['n_init'])
        out = uc.get_minimum(Y, c['n_init'])
        summary(mon, Y, c['n_init'], out, ctx)
        T = np.array(ts)
        tt = uc.get_time(T, c['n_init'], True)
        mon.check(len(tt) == len(out[1]), 'time and convergence summaries of runs have the same length', time=len(tt), minimum=len(out[1]), **ctx)
        mon.key(k, d, c['n_init'], c['acq'])
