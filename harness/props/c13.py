import json
import os
import numpy as np
import gen
import ref
import post
from props.c08 import to_vec

RULE = ('A case fits hyperparameters to one data set (Gaussian or Student-t process, any optimizer and criterion), runs the '
        'combined mode, follows the convergence-tracking mode over a growing data set, or converts hyperparameters to '
        'vectors and back. Non-trivial when the fit moved away from the defaults, the tracking mode both refitted and '
        'reused, or a conversion happened; distinct by kind, kernel, optimizer, criterion, size, dimension, flags.')

LO, HI = 1e-2, 1e3


def plan(tier):
    k = 2 if tier == 'quick' else 16
    return [('gp', 420 * k), ('tp', 160 * k), ('combined', 90 * k), ('converged', 90 * k), ('convert', 300 * k), ('history', 200 * k), ('big', 24 * k), ('quality', 220 * k), ('edge', 9)]


def problem(rng, sets_ok=True):
    d = gen.pick(rng, [1, 2, 3, 5])
    n = gen.pick(rng, [1, 2, 3, 6, 12, 25])
    name = gen.pick(rng, gen.COV)
    if sets_ok and gen.chance(rng, 0.12):
        name = 'set_' + name
        n = min(n, 6)
        X = rng.uniform(-2, 2, (n, gen.pick(rng, [1, 2, 4]), d))
        Y = rng.randn(n, 1)
        st = 'sets'
    else:
        X, Y, st = gen.data(rng, n, d)
        X = X * gen.pick(rng, [1.0, 1.0, 10.0, 0.1])
    Y = Y * gen.pick(rng, [1.0, 1.0, 30.0, 0.03])
    return name, d, n, X, Y, st


def scores(which, name, X, Y, h, prior):
    """The criterion under independent mathematics, or None when rounding decides."""
    try:
        K = ref.train_cov(name, X, h)
        if not np.all(np.isfinite(K)) or np.linalg.cond(K) > 1e11:
            return None
        if which == 'ml':
            return ref.gp_nll(name, X, Y, h, prior)
        if which == 'tp':
            return ref.tp_nll(name, X, Y, h, prior)
        m = np.zeros((len(X), 1)) if prior is None else prior(X)
        inv = np.linalg.inv(K)
        a = inv @ (Y - m)
        p = np.diag(inv) + 1e-5
        mu = Y[:, 0] - a[:, 0] / p
        return float(np.mean(0.5 * np.log(2 * np.pi / p) + 0.5 * (Y[:, 0] - mu) ** 2 * p))
    except np.linalg.LinAlgError:
        return None


def form(mon, h, d, ard, tp, fix, ctx, want_noise=0.01):
    ls = h['lengthscales']
    mon.check((isinstance(ls, np.ndarray) and ls.shape == (d,)) if ard else np.ndim(ls) == 0,
              'lengthscales have the requested form', got=ls, **ctx)
    mon.check(bool(np.all(np.isfinite(ls))) and np.isfinite(h['signal']) and np.isfinite(h['noise']),
              'hyperparameters are finite', hyps=h, **ctx)
    mon.check(('dof' in h) == tp, 'degrees of freedom only for the Student-t process', hyps=h, **ctx)
    if fix:
        mon.check(h['noise'] == want_noise, 'a fixed noise stays at its default', noise=h['noise'], **ctx)


def in_range(mon, h, tp, fix, ctx):
    def ok(v, lo, hi):
        v = np.asarray(v, float)
        return bool(np.all(v >= lo * (1 - 1e-12)) and np.all(v <= hi * (1 + 1e-12)))
    mon.check(ok(h['signal'], LO, HI) and ok(h['lengthscales'], LO, HI) and (fix or ok(h['noise'], 1e-3, 1e1)) and
              (not tp or ok(h['dof'], 2.00001, 200.0)), 'bounded optimizers keep the documented ranges', hyps=h, **ctx)


def default(d, ard, tp):
    h = {'noise': 0.01, 'signal': 1.0, 'lengthscales': np.ones(d) if ard else 1.0}
    if tp:
        h['dof'] = 5.0
    return h


def run(case, mon):
    from bayeso import bo, covariance
    from bayeso.gp import gp_kernel
    from bayeso.tp import tp_kernel
    from bayeso.utils import utils_covariance as uc
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    ard = gen.chance(rng, 0.6)
    fix = gen.chance(rng, 0.65)
    prior = gen.prior_fun(rng)
    pk = getattr(prior, 'kind', None)
    if k == 'convert':
        d = gen.pick(rng, [1, 2, 3, 6, 11])
        tp = gen.chance(rng, 0.4)
        name = gen.pick(rng, gen.COV + ['set_' + c for c in gen.COV])
        h = gen.hyps(rng, d, use_gp=not tp, ard=ard, ls=(1e-2, 1e3))
        ctx = dict(d=d, tp=tp, ard=ard, fix=fix, name=name)
        v = uc.convert_hyps(name, dict(h), use_gp=not tp, fix_noise=fix)
        mon.check(np.array_equal(v, to_vec(h, tp, fix)), 'the vector holds noise, degrees of freedom, signal, lengthscales in this order', got=v, hyps=h, **ctx)
        noise = h['noise'] if gen.chance(rng, 0.5) else None
        kw = {} if noise is None else {'noise': noise}
        b = uc.restore_hyps(name, v, use_gp=not tp, use_ard=ard, fix_noise=fix, **kw)
        mon.check(set(b) == set(h), 'the same hyperparameters come back', got=sorted(b), want=sorted(h), **ctx)
        want_noise = (0.01 if noise is None else noise) if fix else h['noise']
        mon.check(b['noise'] == want_noise and b['signal'] == h['signal'] and np.array_equal(b['lengthscales'], h['lengthscales']) and
                  (not tp or b['dof'] == h['dof']), 'converting and back is lossless', got=b, want=h, **ctx)
        form(mon, b, d, ard, tp, False, ctx)
        rg = uc.get_range_hyps(name, d, use_gp=not tp, use_ard=ard, fix_noise=fix)
        want = ([] if fix else [[1e-3, 1e1]]) + ([[2.00001, 200.0]] if tp else []) + [[LO, HI]] * (1 + (d if ard else 1))
        mon.check(len(rg) == len(v) and bool(np.allclose(np.array(rg, float), np.array(want), rtol=1e-12)),
                  'the range list has the order of the vector', got=rg, want=want, **ctx)
        g = uc.get_hyps(name, d, use_gp=not tp, use_ard=ard)
        form(mon, g, d, ard, tp, True, ctx)
        mon.check(g['signal'] > 0 and bool(np.all(np.asarray(g['lengthscales']) > 0)), 'default hyperparameters are positive', got=g, **ctx)
        mon.key(k, d, tp, ard, fix, name)
        mon.note(vector=v, hyps=h)
        return
    if k == 'history':
        # the convergence test on its own: only the latest entry counts
        from bayeso.utils import utils_bo
        d = gen.pick(rng, [1, 2, 4, 12])
        name = gen.pick(rng, gen.COV + ['set_' + c for c in gen.COV])
        L = [gen.hyps(rng, d, ard=ard, ls=(1e-2, 1e2)) for _ in range(gen.pick(rng, [0, 1, 2, 4, 9, 30]))]
        ctx = dict(d=d, ard=ard, fix=fix, name=name, entries=len(L))
        for _ in range(8):
            thr = gen.pick(rng, [0.05, 0.05, 0.3, 1e-3])
            base = gen.pick(rng, L) if L else gen.hyps(rng, d, ard=ard)
            if L and gen.chance(rng, 0.6):
                base = L[-1]
            v = to_vec(base, False, fix)
            u = rng.randn(len(v)) * gen.pick(rng, [1.0, 1.0, v])
            v2 = v + u / np.linalg.norm(u) * np.linalg.norm(v) * thr * gen.pick(rng, [0.0, 0.2, 0.9, 0.99, 1.01, 1.1, 3.0])
            h = uc.restore_hyps(name, v2, use_ard=ard, fix_noise=fix, **({'noise': base['noise'] * gen.pick(rng, [1.0, 50.0])} if fix else {}))
            got = utils_bo.check_hyps_convergence([dict(q) for q in L], h, name, fix, **({} if thr == 0.05 else {'ratio_threshold': thr}))
            if not L:
                mon.check(got is False, 'nothing to converge to before the first fit', got=got, **ctx)
                continue
            w = to_vec(L[-1], False, fix)
            r = np.linalg.norm(to_vec(h, False, fix) - w) / np.linalg.norm(w)
            if abs(r - thr) > 1e-6 * thr:
                mon.check(got is bool(r < thr), 'converged means a relative change to the latest fit below the threshold', got=got, change=r, threshold=thr, **ctx)
                mon.event('converged' if got else 'not_converged')
        mon.key(k, d, ard, fix, name, len(L))
        return
    if k == 'edge':
        # data for which iterates of L-BFGS-B leave the ranges by rounding (found by a search over random data)
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fits.json')) as f:
            D = json.load(f)
        D = D[case['i'] % len(D)]
        X, Y = np.array(D['X']), np.array(D['Y'])
        for name in gen.COV:
            for tp in (True, False):
                ctx = dict(kernel=name, student=tp, data=case['i'])
                if tp:
                    cov, inv, h = tp_kernel.get_optimized_kernel(X, Y, None, name, str_optimizer_method='L-BFGS-B')
                else:
                    cov, inv, h = gp_kernel.get_optimized_kernel(X, Y, None, name, str_optimizer_method='L-BFGS-B', str_modelselection_method='loocv')
                form(mon, h, X.shape[1], True, tp, True, ctx)
                in_range(mon, h, tp, True, ctx)
                post.check_cov(mon, name, X, h, cov, inv)
        mon.key(k, case['i'])
        return
    if k == 'quality':
        return quality(rng, mon, case['i'], ard, fix)
    if k in ('gp', 'tp', 'big'):
        name, d, n, X, Y, st = problem(rng)
        tp = k == 'tp'
        if k == 'big':
            d, n, name, tp = gen.pick(rng, [3, 8, 12]), gen.pick(rng, [60, 100]), gen.pick(rng, gen.COV), gen.chance(rng, 0.3)
            X = rng.uniform(-2, 2, (n, d)) * 10 ** rng.uniform(-1, 1, d)
            Y = np.sin(X[:, :1] / (1e-9 + np.std(X[:, 0]))) * gen.pick(rng, [1.0, 20.0]) + 0.1 * rng.randn(n, 1)
            st = 'big'
        crit = 'tp' if tp else gen.pick(rng, ['ml', 'ml', 'loocv'])
        opt = gen.pick(rng, gen.OPT_TP if tp else gen.OPT_GP)
        debug = gen.chance(rng, 0.08)
        ctx = dict(kernel=name, d=d, n=n, style=st, ard=ard, fix=fix, opt=opt, crit=crit, prior=pk)
        kw = dict(str_optimizer_method=opt, use_ard=ard, fix_noise=fix, debug=debug)
        if tp:
            cov, inv, h = tp_kernel.get_optimized_kernel(X, Y, prior, name, **kw)
        else:
            cov, inv, h = gp_kernel.get_optimized_kernel(X, Y, prior, name, str_modelselection_method=crit, **kw)
        form(mon, h, d, ard, tp, fix, ctx)
        if tp or opt in ('L-BFGS-B', 'SLSQP-Bounded'):
            in_range(mon, h, tp, fix, ctx)
        post.check_cov(mon, name, X, h, cov, inv)
        s0 = scores(crit, name, X, Y, default(d, ard, tp), prior)
        s1 = scores(crit, name, X, Y, h, prior)
        if s0 is None or s1 is None:
            mon.event('criterion_undecidable')
            return
        tol = 1e-4 + 1e-5 * abs(s0)
        mon.check(s1 <= s0 + tol, 'the fit scores at least as well as the default hyperparameters', fitted=s1, default=s0, hyps=h, **ctx)
        mon.event('fits_scored:' + crit)
        if s1 < s0 - 1e-3:
            mon.event('fits_improved:' + crit)
        # a fit is better than the default moved by a factor two in the same direction (it searched, it did not guess)
        if s1 < s0:
            mon.key(k, name, d, n, ard, fix, opt, crit, pk)
        mon.note(before=s0, after=s1, hyps=h, optimizer=opt)
        return
    if k == 'combined':
        name, d, n, X, Y, st = problem(rng, False)
        crit = gen.pick(rng, ['ml', 'ml', 'loocv'])
        R = np.stack([X.min(axis=0) - 0.5, X.max(axis=0) + 0.5], axis=1)
        m = bo.BOwGP(R, str_cov=name, str_acq='pure_exploit', normalize_Y=gen.chance(rng, 0.6), use_ard=ard, prior_mu=prior,
                     str_modelselection_method=crit)
        p, info = m.optimize(X, Y, str_sampling_method='sobol', num_samples=1, str_mlm_method='combined', seed=1)
        Yn = info['Y_normalized']
        ctx = dict(kernel=name, d=d, n=n, style=st, ard=ard, crit=crit, prior=pk)
        h = info['hyps']
        form(mon, h, d, ard, False, True, ctx)
        post.check_cov(mon, name, X, h, info['cov_X_X'], info['inv_cov_X_X'])
        got = scores('ml', name, X, Yn, h, prior)
        if got is None:
            mon.event('criterion_undecidable')
            return
        vals = []
        for o in ('BFGS', 'Nelder-Mead'):
            c2, i2, h2 = gp_kernel.get_optimized_kernel(X, Yn, prior, name, str_optimizer_method=o, str_modelselection_method=crit, use_ard=ard)
            s = scores('ml', name, X, Yn, h2, prior)
            vals.append(s)
            if s is not None:
                mon.check(got <= s + 1e-6 + 1e-6 * abs(s), 'the combined mode is at least as good as either optimizer', got=got, single=s, optimizer=o, hyps=h, **ctx)
        if None not in vals and abs(vals[0] - vals[1]) > 1e-4:
            mon.event('combined_winner:' + ('BFGS' if vals[0] < vals[1] else 'NM'))
            mon.key(k, name, d, n, ard, crit, pk, vals[0] < vals[1])
        mon.note(combined=got, single=vals)
        return
    # converged
    d = gen.pick(rng, [1, 2, 3])
    name = gen.pick(rng, gen.COV)
    R, fl = gen.box(rng, d, gen.pick(rng, ['unit', 'sym', 'ints']))
    f = gen.objective(rng, R, gen.pick(rng, ['quad', 'sin', 'linear']), scale=gen.pick(rng, [1.0, 5.0]))
    crit = gen.pick(rng, ['ml', 'loocv'], [0.8, 0.2])
    opt = gen.pick(rng, gen.OPT_GP)
    m = bo.BOwGP(R, str_cov=name, str_acq=gen.pick(rng, gen.ACQ), normalize_Y=gen.chance(rng, 0.5), use_ard=ard, prior_mu=prior,
                 str_optimizer_method_gp=opt, str_modelselection_method=crit)
    n = gen.pick(rng, [2, 4, 8])
    X = gen.inside(rng, R, n)
    Y = np.array([[f(x)] for x in X])
    prev, frozen = None, None
    refit = reuse = 0
    other = bo.BOwGP(R, str_cov=name, use_ard=ard)      # a second object must not take part in the bookkeeping
    for t in range(7):
        p, info = m.optimize(X, Y, str_sampling_method='uniform', num_samples=1, str_mlm_method='converged', seed=t)
        h = info['hyps']
        ctx = dict(kernel=name, d=d, n=len(X), ard=ard, opt=opt, crit=crit, prior=pk, step=t)
        v = to_vec(h, False, True)
        post.check_cov(mon, name, X, h, info['cov_X_X'], info['inv_cov_X_X'])
        if frozen is not None:
            mon.check(np.array_equal(v, frozen), 'once converged, the last fit is reused', got=v, want=frozen, **ctx)
            reuse += 1
        else:
            c2, i2, h2 = gp_kernel.get_optimized_kernel(X, Y, prior, name, str_optimizer_method=opt, str_modelselection_method=crit, use_ard=ard)
            mon.check(bool(np.allclose(v, to_vec(h2, False, True), rtol=1e-6, atol=1e-8)), 'until convergence every step refits to the data', got=v, want=to_vec(h2, False, True), **ctx)
            refit += 1
            if prev is not None:
                r = float(np.linalg.norm(v - prev) / np.linalg.norm(prev))
                if abs(r - 0.05) < 1e-6:
                    break
                if r < 0.05:
                    frozen = v.copy()
            prev = v.copy()
        if gen.chance(rng, 0.2):
            other.optimize(X, Y, str_sampling_method='uniform', num_samples=1, str_mlm_method='converged', seed=t)
        q = gen.inside(rng, R, 1)
        X = np.vstack([X, q])
        Y = np.vstack([Y, [[f(q[0])]]])
    mon.event('refits', refit)
    mon.event('reuses', reuse)
    if refit > 1:
        mon.key(k, name, d, ard, opt, crit, pk, refit, reuse)
    mon.note(refits=refit, reuses=reuse)


def quality(rng, mon, i, ard, fix):
    """Is the fit a local optimum, on data which the default hyperparameters describe badly?"""
    from bayeso.gp import gp_kernel
    from bayeso.tp import tp_kernel
    tp = i % 4 == 3
    crit = 'tp' if tp else ['ml', 'loocv', 'ml'][i % 4]
    opts = gen.OPT_TP if tp else gen.OPT_GP
    opt = opts[(i // 4) % len(opts)]
    d = gen.pick(rng, [1, 2, 3], [.5, .35, .15])
    n = gen.pick(rng, [3, 6, 10, 18, 30])
    w = 10 ** rng.uniform(-0.3, 1.5, d)
    X = rng.uniform(0, 1, (n, d)) * w
    Y = np.sin(3.5 * X[:, :1] / w[0] + rng.uniform(0, 6)) + np.sum((X / w - 0.4) ** 2, axis=1, keepdims=True)
    Y = (Y - Y.mean()) / np.std(Y) * gen.pick(rng, [1.0, 3.0, 10.0])
    name = gen.pick(rng, gen.COV)
    kw = dict(str_optimizer_method=opt, use_ard=ard, fix_noise=fix)
    if tp:
        h = tp_kernel.get_optimized_kernel(X, Y, None, name, **kw)[2]
    else:
        h = gp_kernel.get_optimized_kernel(X, Y, None, name, str_modelselection_method=crit, **kw)[2]
    s0 = scores(crit, name, X, Y, default(d, ard, tp), None)
    s1 = scores(crit, name, X, Y, h, None)
    if s0 is None or s1 is None:
        mon.event('criterion_undecidable')
        return
    best = s1
    for r in (0.05, 0.3):
        for _ in range(6 * (d + 1)):
            g = dict(h, signal=h['signal'] * np.exp(r * rng.randn()), lengthscales=h['lengthscales'] * np.exp(r * (rng.randn(d) if ard else rng.randn())))
            s = scores(crit, name, X, Y, g, None)
            if s is not None and in_box(g):
                best = min(best, s)
    for q in (crit, crit + ':' + opt, 'n%d' % n, 'all'):
        mon.event('QN ' + q)
        mon.event('QI ' + q, int(best < s1 - 0.05))      # a small change is notably better
        mon.event('QD ' + q, int(s1 > s0 - 1e-3))        # nothing was gained
    mon.event('assertions')
    mon.key('quality', name, d, n, ard, fix, opt, crit)
    mon.note(before=s0, after=s1, improvable=s1 - best)


def in_box(g):
    return LO <= abs(g['signal']) <= HI and bool(np.all((np.abs(g['lengthscales']) >= LO) & (np.abs(g['lengthscales']) <= HI)))


def final(events, mon, tier):
    import os
    for g in sorted(e[3:] for e in events if e.startswith('QN ')):
        n, a, b = events['QN ' + g], events.get('QI ' + g, 0), events.get('QD ' + g, 0)
        if os.environ.get('C13_DUMP'):
            print('%-24s n=%d improvable=%d nothing gained=%d' % (g, n, a, b))
        if n >= 40:
            # measured shares on the unchanged tree: 0.03 (ml), 0.12 (loocv), 0.25 (tp, recorded finding on its gradient); 0.01 gained nothing
            lim = 0.14 if g.startswith('ml') else {'all': 0.22, 'loocv': 0.3}.get(g, 0.55 if g.startswith(('tp', 'loocv')) else 0.45)
            mon.check(a <= max(lim * n, 7), 'fits are (nearly) local optima of the criterion', group=g, fits=n, improvable=a)
            mon.check(b <= max(0.1 * n, 6), 'fits improve on defaults that do not suit the data', group=g, fits=n, without_gain=b)
    for c in ('ml', 'loocv', 'tp'):
        n, i = events.get('fits_scored:' + c, 0), events.get('fits_improved:' + c, 0)
        if n >= 30:
            mon.check(i >= 0.5 * n, 'fits improve on the defaults in most cases', criterion=c, scored=n, improved=i)
