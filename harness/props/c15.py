import numpy as np
import gen
import ref

RULE = ('A case normalizes one output vector, or repeats an optimization step (any surrogate, or Thompson sampling) with '
        'outputs scaled by powers of two and shifted exactly and compares suggestions. Non-trivial when outputs were not '
        'constant; distinct by kind, surrogate, acquisition, mode, scale and size.')


def plan(tier):
    k = 3 if tier == 'quick' else 16
    return [('map', 3000 * k), ('step', 220 * k), ('trees', 16 * k), ('off', 120 * k), ('reuse', 40 * k), ('thompson', 40 * k)]


def outputs(rng, n):
    st = gen.pick(rng, ['normal', 'ties', 'const', 'neg', 'pos', 'wide', 'outlier', 'low', 'offset', 'int', 'nearties'])
    Y = rng.randn(n, 1)
    if st == 'ties':
        Y = np.round(Y)
    elif st == 'const':
        Y = np.full((n, 1), rng.uniform(-3, 3))
    elif st == 'neg':
        Y = -np.abs(Y) - 1
    elif st == 'pos':
        Y = np.abs(Y) + 5
    elif st == 'wide':
        Y = Y * 10 ** rng.uniform(-6, 6, (n, 1))
    elif st == 'outlier':
        Y[rng.randint(n)] = 10 ** rng.uniform(1, 9)
    elif st == 'low':
        Y[rng.randint(n)] = -10 ** rng.uniform(1, 9)
    elif st == 'offset':
        return Y + rng.uniform(-1, 1) * 10 ** rng.uniform(2, 9), st
    elif st == 'int':
        return rng.randint(-10 ** 6, 10 ** 6, (n, 1)), st
    elif st == 'nearties':
        Y = np.round(Y) + 1e-9 * rng.randn(n, 1)
    return Y * 10 ** gen.pick(rng, [0.0, 0.0, rng.uniform(-12, 12)]), st


def exact(rng, n):
    """Small dyadic outputs: scaling by powers of two and integer shifts is exact."""
    return rng.randint(-40, 41, (n, 1)) / 8.0


def model(rng, s, R, norm, prior=None):
    from bayeso import bo
    acq = gen.pick(rng, gen.ACQ)
    cov, ard = gen.pick(rng, gen.COV), gen.chance(rng, 0.6)
    og, ot = gen.pick(rng, gen.OPT_GP), gen.pick(rng, gen.OPT_TP)
    sel = gen.pick(rng, ['ml', 'loocv'], [0.8, 0.2])
    if s == 'gp':
        mk = lambda: bo.BOwGP(R, str_cov=cov, str_acq=acq, normalize_Y=norm, use_ard=ard, prior_mu=prior, str_optimizer_method_gp=og, str_modelselection_method=sel)
    elif s == 'tp':
        mk = lambda: bo.BOwTP(R, str_cov=cov, str_acq=acq, normalize_Y=norm, use_ard=ard, prior_mu=prior, str_optimizer_method_tp=ot)
    else:
        mk = lambda: bo.BOwTrees(R, str_acq=acq, normalize_Y=norm)
    return mk, dict(s=s, acq=acq, cov=cov, ard=ard, og=og, sel=sel)


def run(case, mon):
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    if k == 'map':
        from bayeso.utils import utils_bo
        n = gen.logint(rng, 1, 60) if gen.chance(rng, 0.8) else gen.logint(rng, 60, 3000)
        Y, st = outputs(rng, n)
        Z = utils_bo.normalize_min_max(Y.copy())
        ctx = dict(n=n, style=st)
        if not mon.check(np.shape(Z) == (n, 1), 'shape is kept', got=np.shape(Z)):
            return
        if Y.min() == Y.max():
            mon.check(np.array_equal(Z, Y), 'constant outputs are unchanged', **ctx)
        else:
            mon.check(Z[np.argmin(Y), 0] == 0.0, 'the minimum becomes 0', got=Z[np.argmin(Y), 0], **ctx)
            mon.check(abs(Z[np.argmax(Y), 0] - 10.0) < 1e-12, 'the maximum becomes 10', got=Z[np.argmax(Y), 0], **ctx)
            mon.check(bool(np.all((Z >= 0) & (Z <= 10 + 1e-12))), 'between 0 and 10', **ctx)
            o = np.argsort(Y[:, 0], kind='stable')
            mon.check(bool(np.all(np.diff(Z[o, 0]) >= 0)), 'order is kept', **ctx)
            mon.close(Z, ref.normalize(Y), 'the map is affine', rtol=1e-9, atol=1e-9 + 1e-14 * float(np.max(np.abs(Y)) / np.ptp(Y)), **ctx)
            E = exact(rng, n)
            if E.min() < E.max():
                a, b = 2.0 ** rng.randint(-20, 21), 0.0
                b = float(rng.randint(-1000, 1001)) * a
                mon.close(utils_bo.normalize_min_max(a * E + b), utils_bo.normalize_min_max(E), 'scaling and shifting change nothing', rtol=1e-14, atol=1e-14, a=a, b=b)
            mon.key(k, st, n, round(float(np.log10(np.ptp(Y)))))
        mon.note(n=n, style=st, low=float(Z.min()), high=float(Z.max()))
        return
    d = gen.pick(rng, [1, 2, 3])
    R, fl = gen.box(rng, d, gen.pick(rng, ['unit', 'sym', 'ints', 'negative']))
    n = gen.pick(rng, [1, 2, 3, 6, 12, 30], [.14, .2, .2, .2, .2, .06])
    X = gen.inside(rng, R, n)
    Y = exact(rng, n)
    a = 2.0 ** int(gen.pick(rng, [-16, -6, -1, 1, 5, 16]))
    b = a * float(rng.randint(-200, 201))
    meth = gen.pick(rng, gen.SAMP)
    sd = int(rng.randint(10 ** 6))
    if k == 'thompson':
        from bayeso import thompson_sampling as ts
        g = int(rng.randint(10 ** 6))
        res = []
        for y in (Y, a * Y + b):
            np.random.seed(g)
            res.append(ts.thompson_sampling_gp_iteration(R, X, y, normalize_Y=True, str_sampling_method='grid', num_samples=6 if d < 3 else 4))
        if np.ptp(Y) > 0:
            mon.check(np.array_equal(res[0], res[1]), 'Thompson sampling does not depend on scale and offset', a=a, b=b, first=res[0], second=res[1])
            mon.key(k, n, d, a)
        mon.event('assertions')
        return
    if k == 'reuse':
        # one model for several datasets in turn
        s = gen.pick(rng, ['gp', 'tp', 'rf'])
        mk, c = model(rng, s, R, True)
        m = mk()
        for t in range(gen.pick(rng, [2, 3, 4])):
            n = gen.pick(rng, [1, 2, 5, 12, 20])
            X = gen.inside(rng, R, n)
            Y = rng.randn(n, 1) * 10 ** rng.uniform(-3, 3) + gen.pick(rng, [0.0, rng.randn() * 10])
            if t and gen.chance(rng, 0.6):      # within, or next to, the range of the dataset before
                Y = last.min() + (last.max() - last.min()) * rng.uniform(0.4, 0.6, (n, 1))
            last = Y
            p, info = m.optimize(X, Y, str_sampling_method=meth, num_samples=1 if s != 'rf' else 5, seed=sd)
            ctx = dict(config=c, step=t, rows=n)
            mon.close(info['Y_normalized'], ref.normalize(Y), 'the surrogate sees outputs on [0, 10], whatever it saw before', rtol=1e-9,
                      atol=1e-9 + 1e-14 * float(np.max(np.abs(Y)) / max(np.ptp(Y), 1e-300)) if np.ptp(Y) > 0 else 0.0, **ctx)
            mon.check(np.array_equal(info['Y_original'], Y), 'the original outputs are reported', **ctx)
        mon.key(k, s, c['acq'], c['cov'], n, t)
        mon.note(config=c)
        return
    if k in ('step', 'trees'):
        s = 'rf' if k == 'trees' else gen.pick(rng, ['gp', 'tp'])
        prior = gen.prior_fun(rng) if s != 'rf' and gen.chance(rng, 0.3) else None
        mk, c = model(rng, s, R, True, prior)
        kw = {'str_mlm_method': gen.pick(rng, ['regular', 'combined'])} if s == 'gp' else {}
        ns = gen.pick(rng, [1, 3]) if s != 'rf' else gen.pick(rng, [20, 120])
        out = []
        for y in (Y, a * Y + b):
            np.random.seed(sd)
            out.append(mk().optimize(X, y, str_sampling_method=meth, num_samples=ns, seed=sd, **kw))
        if np.ptp(Y) > 0:
            ctx = dict(config=c, a=a, b=b, rows=n, mode=kw)
            mon.close(out[1][1]['Y_normalized'], out[0][1]['Y_normalized'], 'normalized outputs do not depend on scale and offset', rtol=1e-13, atol=1e-13, **ctx)
            sc = np.max(np.abs(R)) + 1
            mon.close(out[1][0], out[0][0], 'the suggestion does not depend on scale and offset', rtol=1e-6, atol=1e-6 * sc, **ctx)
            mon.close(out[1][1]['next_points'], out[0][1]['next_points'], 'candidates do not depend on scale and offset', rtol=1e-6, atol=1e-6 * sc, **ctx)
            mon.check(np.array_equal(out[1][1]['Y_original'], a * Y + b), 'the original outputs are reported', **ctx)
            mon.close(out[0][1]['Y_normalized'], ref.normalize(Y), 'the surrogate sees outputs on [0, 10]', rtol=1e-12, atol=1e-12, **ctx)
            mon.key(k, s, c['acq'], c['cov'], a, n, str(kw))
            mon.note(config=c, a=a, b=b, suggestion=out[0][0])
        else:
            mon.check(np.array_equal(out[0][1]['Y_normalized'], Y), 'constant outputs are unchanged', config=c)
        return
    # off: the surrogate sees the outputs as given; the tracking mode always does
    s = gen.pick(rng, ['gp', 'gp', 'tp'])
    conv = s == 'gp' and gen.chance(rng, 0.5)
    norm = conv and gen.chance(rng, 0.7)
    Y = Y * 1.7 + 0.3
    mk, c = model(rng, s, R, norm)
    kw = {'str_mlm_method': 'converged'} if conv else {}
    m = mk()
    p, info = m.optimize(X, Y, str_sampling_method=meth, num_samples=1, seed=sd, **kw)
    ctx = dict(config=c, norm=norm, conv=conv, rows=n)
    for _ in range(3 if conv else gen.pick(rng, [0, 1])):      # later steps, after convergence
        q, later = m.optimize(X, Y, str_sampling_method=meth, num_samples=1, seed=sd, **kw)
        mon.check(np.array_equal(later['Y_normalized'], Y), 'without normalization outputs are used as given (later steps)', **ctx)
        mon.event('later_steps')
    mon.check(np.array_equal(info['Y_normalized'], Y), 'without normalization outputs are used as given', **ctx)
    mon.check(np.array_equal(info['Y_original'], Y), 'the original outputs are reported', **ctx)
    if s == 'gp':
        from bayeso.gp import gp_kernel
        cov, inv, hy = gp_kernel.get_optimized_kernel(X, Y, None, c['cov'], str_optimizer_method=c['og'],
                                                      str_modelselection_method=c['sel'], use_ard=c['ard'])
        for q in ('signal', 'lengthscales'):
            mon.close(info['hyps'][q], hy[q], 'the surrogate is fitted to the outputs as given', rtol=1e-6, atol=1e-9, which=q, **ctx)
    if np.ptp(Y) > 0:
        mon.key(k, s, c['acq'], c['cov'], conv, norm, n)
