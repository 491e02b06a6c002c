import numpy as np
import gen
import runs

RULE = ('A case is a sampler call batch, one optimization step, one wrapper run or one Thompson-sampling call on a '
        'random box (unit, mixed, negative, offset, tiny, huge, integer, degenerate). Non-trivial when at least one '
        'point was observed; distinct by kind/surrogate/method/acquisition/optimizer/box/dimension.')
ASSUMPTIONS = ['boxes with an empty dimension are not combined with CMA-ES (known finding of C01)']


def plan(tier):
    k = 2 if tier == 'quick' else 14
    return [('samples', 260 * k), ('step', 300 * k), ('run', 160 * k), ('rf', 30 * k), ('cma', 30 * k),
            ('ts_iter', 60 * k), ('ts_run', 30 * k), ('edge', 60 * k)]


def the_box(rng, d, deg=0.12):
    R, f = gen.box(rng, d)
    if gen.chance(rng, deg):
        R = gen.degenerate(rng, R)
        f += '+deg'
    return R, f


def inbox(mon, P, R, what, **ctx):
    P = np.asarray(P, dtype=float)
    P2 = P[None, :] if P.ndim == 1 else P
    mon.event('points_observed', len(P2))
    if not mon.check(P2.ndim == 2 and P2.shape[1] == R.shape[0], what + ': one coordinate per dimension',
                     shape=P.shape, **ctx):
        return
    if not mon.check(bool(np.all(np.isfinite(P2))), what + ': finite', **ctx):
        return
    bad = (P2 < R[:, 0]) | (P2 > R[:, 1])
    if bad.any():
        i, j = np.argwhere(bad)[0]
        mon.fail(what + ': inside the box', value=P2[i, j], lo=R[j, 0], hi=R[j, 1], dim=int(j), row=int(i), **ctx)
    on = ((P2 == R[:, 0]) | (P2 == R[:, 1])) & (R[:, 0] < R[:, 1])
    mon.event('points_on_boundary', int(on.any(axis=1).sum()))


def lean(R, w):
    """A tilted plane, as objective and as prior mean: suggestions go to a corner, however wide the box."""
    return lambda X: np.dot(np.atleast_2d(X) - R.mean(axis=1), w)[:, None]


def make(rng, s, R, opt_bo='L-BFGS-B', debug=False, plane=None):
    from bayeso import bo
    if plane is not None:
        C = {'gp': bo.BOwGP, 'tp': bo.BOwTP}[s]
        return C(R, str_cov=gen.pick(rng, gen.COV), str_acq=gen.pick(rng, ['pure_exploit', 'ucb']), normalize_Y=False, prior_mu=plane,
                 str_optimizer_method_bo=opt_bo, debug=debug)
    acq = gen.pick(rng, gen.ACQ)
    norm = gen.chance(rng, 0.7)
    if s == 'gp':
        return bo.BOwGP(R, str_cov=gen.pick(rng, gen.COV), str_acq=acq, normalize_Y=norm, use_ard=gen.chance(rng, 0.6),
                        str_optimizer_method_gp=gen.pick(rng, gen.OPT_GP), str_optimizer_method_bo=opt_bo, debug=debug)
    if s == 'tp':
        return bo.BOwTP(R, str_cov=gen.pick(rng, gen.COV), str_acq=acq, normalize_Y=norm, use_ard=gen.chance(rng, 0.6),
                        str_optimizer_method_tp=gen.pick(rng, gen.OPT_TP), str_optimizer_method_bo=opt_bo, debug=debug)
    return bo.BOwTrees(R, str_acq=acq, normalize_Y=norm, debug=debug)


def train(rng, R, f, n):
    X = gen.inside(rng, R, n)
    if gen.chance(rng, 0.3):       # points on faces and corners of the box
        m = rng.rand(*X.shape) < 0.4
        X = np.where(m, np.where(rng.rand(*X.shape) < 0.5, R[:, 0], R[:, 1]), X)
    return X, np.array([[f(x)] for x in X])


def run(case, mon):
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    d = gen.pick(rng, [1, 2, 3, 4, 6], [0.25, 0.35, 0.2, 0.1, 0.1])
    if k == 'samples':
        d = gen.pick(rng, [d, 12, 40], [.8, .12, .08])
        R, fl = the_box(rng, d, 0.2)
        if gen.chance(rng, 0.15):
            R = np.stack([R[:, 0] * 1e6, R[:, 0] * 1e6 + np.abs(R[:, 1] - R[:, 0]) * 10 ** rng.uniform(-2, 6, d)], 1)
            fl = 'extreme'
        s = gen.pick(rng, ['gp', 'tp', 'rf'])
        m = make(rng, s, R, debug=gen.chance(rng, 0.1))
        for meth in gen.SAMP + ['grid']:
            n = gen.logint(rng, 1, gen.pick(rng, [300, 3000], [.85, .15]))
            if meth == 'grid' and d > 16:
                continue
            if meth == 'grid':
                n = int(max(1, min(n, round(2000 ** (1.0 / d)))) if d <= 6 else 1)
            sd = gen.pick(rng, [None, 0, 7, int(rng.randint(10 ** 6))])
            P = m.get_samples(meth, num_samples=n, seed=sd)
            inbox(mon, P, R, 'sample ' + meth, box=fl, bounds=R, n=n, seed=sd)
            if meth != 'grid':
                inbox(mon, m.get_initials(meth, n, seed=sd), R, 'initial ' + meth, box=fl, bounds=R, n=n)
        mon.key(k, s, fl, d)
        mon.note(box=R, flavour=fl, surrogate=s)
        return
    if k in ('step', 'cma', 'edge'):
        s = gen.pick(rng, ['gp', 'tp'])
        d = min(d, 4) if gen.chance(rng, 0.9) else 10
        R, fl = the_box(rng, d, 0.0 if k == 'cma' else 0.12)
        if k == 'cma':
            d = R.shape[0]
        ob = 'CMA-ES' if k == 'cma' else gen.pick(rng, ['L-BFGS-B', 'DIRECT'], [0.8, 0.2])
        plane = None
        if k == 'edge' and gen.chance(rng, 0.5):
            if gen.chance(rng, 0.4):
                w = 10 ** rng.uniform(-3, 8, d)
                R = np.stack([-rng.rand(d) * w, rng.rand(d) * w], 1)
                fl = 'spans'
            plane = lean(R, rng.choice([-1.0, 1.0], d) * 10 ** rng.uniform(-1, 2, d))
        m = make(rng, s, R, ob, debug=gen.chance(rng, 0.1), plane=plane)
        kind = 'linear' if k == 'edge' else None
        f = gen.objective(rng, R, kind=kind)
        if plane is not None:
            f = lambda x: float(plane(x)[0, 0])   # noqa
            mon.event('tilted_planes')
        X, Y = train(rng, R, f, gen.pick(rng, [1, 2, 3, 5, 9, 16, 40]))
        meth = gen.pick(rng, gen.SAMP + ['grid'])
        n = gen.pick(rng, [1, 2, 4, 8])
        if meth == 'grid':
            n = 3 if d <= 2 else 2
            if d > 4:
                meth, n = 'halton', 2
        kw = {}
        if s == 'gp':
            kw['str_mlm_method'] = gen.pick(rng, gen.MLM, [0.7, 0.15, 0.15])
        for _ in range(2 if k != 'cma' else 1):
            p, info = m.optimize(X, Y, str_sampling_method=meth, num_samples=n,
                                 seed=gen.pick(rng, [None, int(rng.randint(10 ** 6))]), **kw)
            inbox(mon, p, R, 'suggestion', bounds=R, box=fl, meth=meth, opt=ob, acq=m.str_acq, s=s)
            inbox(mon, info['next_points'], R, 'candidate', bounds=R, box=fl, meth=meth, opt=ob, acq=m.str_acq, s=s)
            X = np.vstack([X, p])
            Y = np.vstack([Y, [[f(p)]]])
        mon.key(k, s, meth, m.str_acq, ob, fl, d)
        mon.note(box=R, suggestion=p, acq=m.str_acq)
        return
    if k in ('run', 'rf'):
        if k == 'rf':
            c = runs.config(rng, surrogate='rf', entry=gen.pick(rng, ['class.optimize', 'class.inputs', 'class.all']))
            c['n_iter'] = 1
        else:
            c = runs.config(rng)
        R, fl = the_box(rng, c['d'])
        f = gen.objective(rng, R)
        rec = runs.Recorder(f, ret=c['ret'])
        X0 = Y0 = None
        if not c['entry'].endswith(('optimize', 'round')):
            X0, Y0 = train(rng, R, f, c['n_init'])
        b, m = runs.build(c, R, rec)
        sp = runs.Spy(m)
        res = runs.execute(c, b, m, rec, X0, Y0)
        inbox(mon, rec.xs(), R, 'evaluated point', config=c, box=fl, bounds=R)
        inbox(mon, res[0], R, 'returned point', config=c, box=fl, bounds=R)
        for st in sp.steps:
            inbox(mon, st[2], R, 'suggestion in run', config=c, bounds=R)
            inbox(mon, st[3]['next_points'], R, 'candidate in run', config=c, bounds=R)
        mon.key(k, fl, *runs.key(c))
        mon.note(config=c, box=R)
        return
    from bayeso import thompson_sampling as ts
    d = min(d, 3)
    R, fl = the_box(rng, d, 0.0)
    f = gen.objective(rng, R)
    if k == 'ts_iter':
        X, Y = train(rng, R, f, gen.pick(rng, [1, 2, 4, 8, 15]))
        meth = gen.pick(rng, gen.SAMP + ['grid'])
        n = gen.pick(rng, [1, 5, 40]) if meth != 'grid' else gen.pick(rng, [2, 3])
        if gen.chance(rng, 0.4):       # the best data are candidates at one end of the box
            meth, n = 'grid', gen.pick(rng, [2, 3])
            w = rng.choice([-1.0, 1.0], d) / np.maximum(R[:, 1] - R[:, 0], 1e-300)
            f = lambda x: float(np.dot(w, np.ravel(x) - R[:, 0]))   # noqa
            G = np.array(np.meshgrid(*[np.linspace(a, b, n) for a, b in R], indexing='ij')).reshape(d, -1).T
            X = np.vstack([X, G])
            Y = np.array([[f(x)] for x in X])
        for _ in range(2):
            p = ts.thompson_sampling_gp_iteration(R, X, Y, normalize_Y=gen.chance(rng, 0.6), str_sampling_method=meth,
                                                  num_samples=n, debug=gen.chance(rng, 0.1))
            inbox(mon, p, R, 'Thompson suggestion', bounds=R, meth=meth)
    else:
        meth = gen.pick(rng, gen.SAMP)
        rec = runs.Recorder(f, ret=gen.pick(rng, ['float', 'np', 'arr1']))
        X, Y = ts.thompson_sampling_gp(R, rec, gen.pick(rng, [1, 3, 6]), gen.pick(rng, [1, 2, 3]),
                                       normalize_Y=gen.chance(rng, 0.6), str_sampling_method=meth,
                                       num_samples=gen.pick(rng, [1, 10, 50]))
        inbox(mon, rec.xs(), R, 'Thompson evaluated point', bounds=R, meth=meth)
        inbox(mon, X, R, 'Thompson returned point', bounds=R, meth=meth)
    mon.key(k, meth, fl, d)
