import numpy as np
import gen

RULE = ('A case is a sweep of some 500 requests, each an otherwise valid request to one entry point (run wrappers, step methods, Thompson sampling, '
        'fitting, prediction, kernels) in which one thing was made malformed; a watched objective and watched step '
        'methods record whether anything was evaluated before the refusal. The same request without the malformation '
        'is executed too, so that the refusal is due to it. Distinct by the set of entry points and malformations.')
ASSUMPTIONS = ['python is run with assertions enabled, as the library uses assert for validation']


class Obj:
    def __init__(self):
        self.n = 0

    def __call__(self, x):
        self.n += 1
        return float(np.sum(np.asarray(x) ** 2))


NAMES = ['abc', '', 'EI', 'Matern52', 'gp ', 'l-bfgs-b', 'Uniform', 'sobol1', 'ML']
VALID = {'str_surrogate': ['gp', 'tp', 'rf'], 'str_cov': gen.COV, 'str_acq': gen.ACQ, 'str_initial_method_bo': gen.SAMP,
         'str_sampling_method_ao': gen.SAMP + ['grid'], 'str_optimizer_method_gp': gen.OPT_GP, 'str_optimizer_method_tp': gen.OPT_TP,
         'str_optimizer_method_bo': ['L-BFGS-B', 'DIRECT', 'CMA-ES'], 'str_mlm_method': gen.MLM,
         'str_modelselection_method': ['ml', 'loocv']}


def name(rng, opt):
    """Something that is not a name of the option, but often close to one."""
    v = gen.pick(rng, VALID.get(opt, ['gp']))
    out = gen.pick(rng, [v.upper(), v.lower(), v.capitalize(), v + ' ', ' ' + v, v[:-1], v + v[-1], v.replace('-', '_'), v.replace('_', '-'), v + '1',
                         v.swapcase()] + NAMES)
    ok = {q for w in VALID.values() for q in w} | {'random_search', 'eq', 'se', 'matern32', 'matern52', ''.join(['set_', v])}
    return out if out not in ok and not out.startswith('set_') else gen.pick(rng, NAMES)


BADCOUNT = [0, -1, -7]
BADTYPE = [2.0, '3', None, np.float64(2.0), [2]]


def bad_boxes(rng, R):
    d = len(R)
    flip = R.copy()
    k = rng.randint(d)
    flip[k] = flip[k, ::-1]
    barely = R.copy()
    barely[k] = [1.0 + 1e-9, 1.0]
    most = R[:, ::-1].copy() if d > 1 else R[:, ::-1]
    if d > 1:                  # all but one dimension reversed
        most[k] = R[k]
    return [('mostly-reversed', most), ('three-columns', np.hstack([R, R[:, 1:]])), ('one-column', R[:, :1]), ('flat', R.reshape(-1)),
            ('three-d', R[None]), ('list', R.tolist()), ('none', None),
            ('reversed', flip), ('barely-reversed', barely), ('nan', np.where(np.arange(d)[:, None] == k, np.nan, R)),
            ('nan-lower', np.where((np.arange(d)[:, None] == k) & np.array([[True, False]]), np.nan, R)),
            ('nan-upper', np.where((np.arange(d)[:, None] == k) & np.array([[False, True]]), np.nan, R))]


def bad_data(rng, X, Y, dim=True):
    n, d = X.shape
    k = rng.randint(1, 4)
    out = [('fewer-outputs', X, Y[:-1]), ('more-outputs', X, np.vstack([Y, Y[:k]])), ('fewer-inputs', X[:-1], Y),
           ('two-output-columns', X, np.hstack([Y, Y])), ('flat-outputs', X, Y[:, 0]), ('three-d-outputs', X, Y[:, :, None]),
           ('list-outputs', X, Y.tolist()), ('list-inputs', X.tolist(), Y), ('flat-inputs', X.reshape(-1), Y),
           ('three-d-inputs', X[:, None, :], Y), ('row-outputs', X, Y.T)]
    if dim:
        out += [('extra-dimension', np.hstack([X, X[:, :1]]), Y)]
        if d > 1:
            out += [('missing-dimension', X[:, :-1], Y)]
    return out


def requests(rng):
    """Yields (entry, name of malformation or None, callable taking the objective)."""
    from bayeso import bo, wrappers, thompson_sampling as ts
    from bayeso.bo import base_bo
    d = gen.pick(rng, [1, 2, 3, 7])
    R, _ = gen.box(rng, d, gen.pick(rng, ['unit', 'sym', 'negative', 'ints', 'offset']))
    n = gen.pick(rng, [3, 4, 6, 25])
    X = gen.inside(rng, R, n)
    Y = rng.randn(n, 1)
    sur = gen.pick(rng, ['gp', 'tp', 'rf'])

    # ---- the class wrapper ------------------------------------------------
    def cls(f, box=R, it=1, how='optimize', args=None, **kw):
        base = dict(str_surrogate=sur, num_samples_ao=3)
        if sur == 'rf':
            base['str_optimizer_method_bo'] = 'random_search'
        base.update(kw)
        b = wrappers.BayesianOptimization(box, f, it, **base)
        if how == 'optimize':
            return b.optimize(*(args or (2,)), seed=1)
        if how == 'inputs':
            return b.optimize_with_initial_inputs(*(args or (X,)))
        if how == 'all':
            return b.optimize_with_all_initial_information(*(args or (X, Y)))
        return b.optimize_single_iteration(*(args or (X, Y)))
    for how in ('optimize', 'inputs', 'all', 'single'):
        e = 'class.%s.%s' % (how, sur)
        yield e, None, lambda f, how=how: cls(f, how=how)
        for nm, B in bad_boxes(rng, R):
            yield e, 'box:' + nm, lambda f, how=how, B=B: cls(f, box=B, how=how)
        for opt in ('str_surrogate', 'str_cov', 'str_acq', 'str_initial_method_bo', 'str_sampling_method_ao',
                    'str_optimizer_method_gp', 'str_optimizer_method_tp', 'str_optimizer_method_bo', 'str_mlm_method',
                    'str_modelselection_method'):
            bad = name(rng, opt)
            yield e, 'name:%s=%s' % (opt, bad), lambda f, how=how, opt=opt, bad=bad: cls(f, how=how, **{opt: bad})
            yield e, 'name-type:' + opt, lambda f, how=how, opt=opt: cls(f, how=how, **{opt: gen.pick(rng, [None, 3, b'gp'])})
        yield e, 'name:grid-initials', lambda f, how=how: cls(f, how=how, str_initial_method_bo='grid')
        yield e, 'objective:none', lambda f, how=how: cls(None, how=how)
        yield e, 'objective:string', lambda f, how=how: cls('sin', how=how)
        yield e, 'objective:array', lambda f, how=how: cls(np.ones(3), how=how)
        for v in BADCOUNT + BADTYPE:
            yield e, 'count:num_iter:%r' % (v,), lambda f, how=how, v=v: cls(f, it=v, how=how)
            yield e, 'count:num_samples_ao:%r' % (v,), lambda f, how=how, v=v: cls(f, how=how, num_samples_ao=v)
        for opt in ('normalize_Y', 'use_ard', 'debug'):
            yield e, 'flag:' + opt, lambda f, how=how, opt=opt: cls(f, how=how, **{opt: gen.pick(rng, ['yes', None, 1.0])})
        yield e, 'prior:not-callable', lambda f, how=how: cls(f, how=how, prior_mu=3.0)
    e = 'class.optimize.' + sur
    for v in BADCOUNT + BADTYPE:
        yield e, 'count:num_init:%r' % (v,), lambda f, v=v: cls(f, args=(v,))
    for nm, A, B in bad_data(rng, X, Y):
        yield 'class.all.' + sur, 'data:' + nm, lambda f, A=A, B=B: cls(f, how='all', args=(A, B))
        yield 'class.single.' + sur, 'data:' + nm, lambda f, A=A, B=B: cls(f, how='single', args=(A, B))
    for nm, A in (('list', X.tolist()), ('flat', X.reshape(-1)), ('three-d', X[:, None]),
                  ('extra-dimension', np.hstack([X, X[:, :1]])), ('missing-dimension', X[:, :-1])):
        yield 'class.inputs.' + sur, 'inputs:' + nm, lambda f, A=A: cls(f, how='inputs', args=(A,))

    # ---- the function wrappers --------------------------------------------
    def fn(f, how, model=None, args=None, it=1, **kw):
        model = bo.BOwGP(R) if model is None else model
        kw.setdefault('num_samples_ao', 2)
        if how == 'round':
            return wrappers.run_single_round(model, f, *(args or (2,)), it, **kw)
        if how == 'inputs':
            return wrappers.run_single_round_with_initial_inputs(model, f, *(args or (X,)), it, **kw)
        return wrappers.run_single_round_with_all_initial_information(model, f, *(args or (X, Y)), it, **kw)
    for how in ('round', 'inputs', 'all'):
        e = 'fn.' + how
        yield e, None, lambda f, how=how: fn(f, how)
        yield e, 'objective:none', lambda f, how=how: fn(None, how)
        yield e, 'objective:array', lambda f, how=how: fn(np.ones(2), how)
        yield e, 'model:string', lambda f, how=how: fn(f, how, model='gp')
        yield e, 'model:box', lambda f, how=how: fn(f, how, model=R)
        for v in BADTYPE:
            yield e, 'count:num_iter:%r' % (v,), lambda f, how=how, v=v: fn(f, how, it=v)
            yield e, 'count:num_samples:%r' % (v,), lambda f, how=how, v=v: fn(f, how, num_samples_ao=v)
        for v in BADCOUNT:
            yield e, 'count:num_samples:%r' % (v,), lambda f, how=how, v=v: fn(f, how, num_samples_ao=v)
        for opt in ('str_sampling_method_ao', 'str_mlm_method') + (('str_initial_method_bo',) if how == 'round' else ()):
            bad = name(rng, opt)
            yield e, 'name:%s=%s' % (opt, bad), lambda f, how=how, opt=opt, bad=bad: fn(f, how, **{opt: bad})
    for v in BADCOUNT + BADTYPE:
        yield 'fn.round', 'count:num_init:%r' % (v,), lambda f, v=v: fn(f, 'round', args=(v,))
    for v in (1.0, 'a', [1]):
        yield 'fn.round', 'seed:%r' % (v,), lambda f, v=v: fn(f, 'round', seed=v)
    for nm, A, B in bad_data(rng, X, Y):
        yield 'fn.all', 'data:' + nm, lambda f, A=A, B=B: fn(f, 'all', args=(A, B))
    for nm, A in (('list', X.tolist()), ('flat', X.reshape(-1)), ('three-d', X[:, None]),
                  ('extra-dimension', np.hstack([X, X[:, :1]])), ('missing-dimension', X[:, :-1])):
        yield 'fn.inputs', 'inputs:' + nm, lambda f, A=A: fn(f, 'inputs', args=(A,))

    # ---- optimizer objects --------------------------------------------------
    kls = {'gp': bo.BOwGP, 'tp': bo.BOwTP, 'rf': bo.BOwTrees}[sur]

    def obj(A=X, B=Y, box=R, step=None, **kw):
        m = kls(box, **kw)
        a = dict(num_samples=2)
        a.update(step or {})
        return m.optimize(A, B, **a)
    e = 'object.' + sur
    yield e, None, lambda f: obj()
    for nm, B in bad_boxes(rng, R):
        yield e, 'box:' + nm, lambda f, B=B: obj(box=B)
    opts = ['str_acq', 'str_optimizer_method_bo']
    if sur != 'rf':
        opts += ['str_cov', 'str_optimizer_method_' + sur]
    else:
        opts += ['str_surrogate']
    if sur == 'gp':
        opts += ['str_modelselection_method']
    for opt in opts:
        bad = name(rng, opt)
        yield e, 'name:%s=%s' % (opt, bad), lambda f, opt=opt, bad=bad: obj(**{opt: bad})
    for nm, A, B in bad_data(rng, X, Y):
        yield e, 'data:' + nm, lambda f, A=A, B=B: obj(A, B)
    for v in BADCOUNT + BADTYPE:
        yield e, 'count:num_samples:%r' % (v,), lambda f, v=v: obj(step={'num_samples': v})
    yield e, 'name:sampling', lambda f: obj(step={'str_sampling_method': name(rng, 'str_sampling_method_ao')})
    if sur == 'gp':
        yield e, 'name:mlm', lambda f: obj(step={'str_mlm_method': name(rng, 'str_mlm_method')})
    yield e, 'seed', lambda f: obj(step={'seed': gen.pick(rng, [1.5, 'a'])})
    # the object is refused when it is made, not only when it is used
    for cn, K in (('gp', bo.BOwGP), ('tp', bo.BOwTP), ('rf', bo.BOwTrees)):
        e = 'construct.' + cn
        yield e, None, lambda f, K=K: K(R)
        for nm, B in bad_boxes(rng, R):
            yield e, 'box:' + nm, lambda f, K=K, B=B: K(B)
        for opt in ['str_acq', 'str_optimizer_method_bo'] + {'gp': ['str_cov', 'str_optimizer_method_gp', 'str_modelselection_method'],
                                                             'tp': ['str_cov', 'str_optimizer_method_tp'], 'rf': ['str_surrogate']}[cn]:
            bad = name(rng, opt)
            yield e, 'name:%s=%s' % (opt, bad), lambda f, K=K, opt=opt, bad=bad: K(R, **{opt: bad})
            yield e, 'name-type:' + opt, lambda f, K=K, opt=opt: K(R, **{opt: gen.pick(rng, [None, 3, b'gp'])})
        for opt in ['normalize_Y', 'debug'] + (['use_ard'] if cn != 'rf' else []):
            yield e, 'flag:' + opt, lambda f, K=K, opt=opt: K(R, **{opt: gen.pick(rng, ['yes', None, 1.0])})
        yield e, 'exp', lambda f, K=K: K(R, str_exp=gen.pick(rng, [3, b'a', ['a']]))
        if cn != 'rf':
            yield e, 'prior', lambda f, K=K: K(R, prior_mu=gen.pick(rng, [1.0, 'a', np.ones(3)]))
    class Own(base_bo.BaseBO):                 # an optimizer of the user's own
        def compute_posteriors(self):
            pass

        def compute_acquisitions(self):
            pass

        def optimize(self):
            pass

    def own(box=R, str_surrogate='gp', str_acq='ei', str_optimizer_method_bo='L-BFGS-B'):
        return Own(box, str_surrogate, str_acq, str_optimizer_method_bo, True, None, False)
    e = 'construct.own'
    yield e, None, lambda f: own()
    for nm, B in bad_boxes(rng, R):
        yield e, 'box:' + nm, lambda f, B=B: own(B)
    for opt in ['str_surrogate', 'str_acq', 'str_optimizer_method_bo']:
        bad = name(rng, opt)
        yield e, 'name:%s=%s' % (opt, bad), lambda f, opt=opt, bad=bad: own(**{opt: bad})
    e = 'construct.class'
    W = wrappers.BayesianOptimization
    yield e, None, lambda f: W(R, f, 2)
    for nm, B in bad_boxes(rng, R):
        yield e, 'box:' + nm, lambda f, B=B: W(B, f, 2)
    for opt in VALID:
        bad = name(rng, opt)
        yield e, 'name:%s=%s' % (opt, bad), lambda f, opt=opt, bad=bad: W(R, f, 2, **{opt: bad})
    for v in BADCOUNT + BADTYPE:
        yield e, 'count:num_iter:%r' % (v,), lambda f, v=v: W(R, f, v)
        yield e, 'count:num_samples_ao:%r' % (v,), lambda f, v=v: W(R, f, 2, num_samples_ao=v)
    # ---- posteriors and acquisitions of an optimizer object -----------------------
    if sur != 'rf':
        from bayeso import covariance as cv_
        mm = kls(R)
        hh = {'noise': 0.1, 'signal': 1.0, 'lengthscales': np.ones(d)}
        if sur == 'tp':
            hh['dof'] = 5.0
        K_ = cv_.cov_main('matern52', X, X, hh, True) + 0.01 * np.eye(n)
        I_ = np.linalg.inv(K_)
        Q_ = gen.inside(rng, R, 4)

        def ca(A=X, B=Y, C=Q_, KK=K_, II=I_, acq=True):
            return mm.compute_acquisitions(C, A, B, KK, II, hh) if acq else mm.compute_posteriors(A, B, C, KK, II, hh)
        for acq, e in ((True, 'acquisitions.' + sur), (False, 'posteriors.' + sur)):
            yield e, None, lambda f, acq=acq: ca(acq=acq)
            for nm, A, B in bad_data(rng, X, Y):
                yield e, 'data:' + nm, lambda f, A=A, B=B, acq=acq: ca(A, B, acq=acq)
            for nm, C in (('list', Q_.tolist()), ('extra-dimension', np.hstack([Q_, Q_]))):
                yield e, 'query:' + nm, lambda f, C=C, acq=acq: ca(C=C, acq=acq)
            yield e, 'matrix:flat', lambda f, acq=acq: ca(KK=K_.reshape(-1), acq=acq)
            yield e, 'matrix:inverse-flat', lambda f, acq=acq: ca(II=I_.reshape(-1), acq=acq)
            yield e, 'matrix:inverse-smaller', lambda f, acq=acq: ca(II=I_[:-1, :-1], acq=acq)
            yield e, 'matrix:both-smaller', lambda f, acq=acq: ca(KK=K_[:-1, :-1], II=I_[:-1, :-1], acq=acq)
            yield e, 'matrix:list', lambda f, acq=acq: ca(KK=K_.tolist(), acq=acq)
    m = kls(R)
    yield 'samples', None, lambda f: (m.get_samples('uniform', num_samples=3), m.get_initials('sobol', 3))
    yield 'samples', 'name', lambda f: m.get_samples(name(rng, 'str_sampling_method_ao'), num_samples=3)
    yield 'samples', 'name:initials', lambda f: m.get_initials(name(rng, 'str_initial_method_bo'), 3)
    yield 'samples', 'name:initials-grid', lambda f: m.get_initials('grid', 3)
    for v in BADTYPE:
        yield 'samples', 'count:%r' % (v,), lambda f, v=v: m.get_samples(gen.pick(rng, gen.SAMP), num_samples=v)
        yield 'samples', 'count-initials:%r' % (v,), lambda f, v=v: m.get_initials(gen.pick(rng, gen.SAMP), v)

    # ---- Thompson sampling ----------------------------------------------------
    def tsr(f, box=R, a=2, b=1, **kw):
        kw.setdefault('num_samples', 5)
        return ts.thompson_sampling_gp(box, f, a, b, **kw)
    yield 'ts', None, lambda f: tsr(f)
    yield 'ts', 'objective', lambda f: tsr(None)
    for nm, B in bad_boxes(rng, R):
        yield 'ts', 'box:' + nm, lambda f, B=B: tsr(f, box=B)
    for v in BADTYPE:
        yield 'ts', 'count:num_init:%r' % (v,), lambda f, v=v: tsr(f, a=v)
        yield 'ts', 'count:num_iter:%r' % (v,), lambda f, v=v: tsr(f, b=v)
        yield 'ts', 'count:num_samples:%r' % (v,), lambda f, v=v: tsr(f, num_samples=v)
    yield 'ts', 'name', lambda f: tsr(f, str_sampling_method=name(rng, 'str_sampling_method_ao'))

    def tsi(f, box=R, A=X, B=Y, **kw):
        kw.setdefault('num_samples', 5)
        return ts.thompson_sampling_gp_iteration(box, A, B, **kw)
    yield 'ts.step', None, lambda f: tsi(f)
    for nm, B in bad_boxes(rng, R):
        yield 'ts.step', 'box:' + nm, lambda f, B=B: tsi(f, box=B)
    for nm, A, B in bad_data(rng, X, Y):
        yield 'ts.step', 'data:' + nm, lambda f, A=A, B=B: tsi(f, A=A, B=B)
    yield 'ts.step', 'name', lambda f: tsi(f, str_sampling_method=name(rng, 'str_sampling_method_ao'))

    # ---- models used directly ---------------------------------------------------
    from bayeso.gp import gp, gp_kernel
    from bayeso.tp import tp, tp_kernel
    from bayeso.utils import utils_bo
    from bayeso import covariance
    h = {'noise': 0.1, 'signal': 1.0, 'lengthscales': np.ones(d)}
    ht = dict(h, dof=5.0)
    Q = gen.inside(rng, R, 4)
    bad = name(rng, 'str_cov')
    bado = name(rng, 'str_optimizer_method_gp')
    for nm, mod, hh, ker in (('gp', gp, h, gp_kernel), ('tp', tp, ht, tp_kernel)):
        def ph(A=X, B=Y, C=Q, mod=mod, hh=hh, **kw):
            return mod.predict_with_hyps(A, B, C, hh, **kw)

        def po(A=X, B=Y, C=Q, mod=mod, **kw):
            return mod.predict_with_optimized_hyps(A, B, C, **kw)

        def ok(A=X, B=Y, ker=ker, **kw):
            return ker.get_optimized_kernel(A, B, kw.pop('prior', None), kw.pop('cov', 'matern52'), **kw)
        yield nm + '.hyps', None, lambda f, ph=ph: ph()
        yield nm + '.optimized', None, lambda f, po=po: po()
        yield nm + '.kernel', None, lambda f, ok=ok: ok()
        for dn, A, B in bad_data(rng, X, Y):
            if dn == 'two-output-columns':    # several outputs at once are meaningful for a model
                continue
            yield nm + '.hyps', 'data:' + dn, lambda f, A=A, B=B, ph=ph: ph(A, B)
            yield nm + '.optimized', 'data:' + dn, lambda f, A=A, B=B, po=po: po(A, B)
            if 'dimension' not in dn:
                yield nm + '.kernel', 'data:' + dn, lambda f, A=A, B=B, ok=ok: ok(A, B)
        for dn, C in (('list', Q.tolist()), ('flat', Q.reshape(-1)), ('three-d', Q[:, None]), ('extra-dimension', np.hstack([Q, Q]))):
            yield nm + '.hyps', 'query:' + dn, lambda f, C=C, ph=ph: ph(C=C)
            yield nm + '.optimized', 'query:' + dn, lambda f, C=C, po=po: po(C=C)
        yield nm + '.hyps', 'name:cov', lambda f, ph=ph: ph(str_cov=bad)
        yield nm + '.hyps', 'prior', lambda f, ph=ph: ph(prior_mu=1.0)
        yield nm + '.optimized', 'prior', lambda f, po=po: po(prior_mu=1.0)
        yield nm + '.kernel', 'prior', lambda f, ok=ok: ok(prior=1.0)
        yield nm + '.optimized', 'name:cov', lambda f, po=po: po(str_cov=bad)
        yield nm + '.optimized', 'name:optimizer', lambda f, po=po: po(str_optimizer_method=bado)
        yield nm + '.kernel', 'name:cov', lambda f, ok=ok: ok(cov=bad)
        yield nm + '.kernel', 'name:optimizer', lambda f, ok=ok: ok(str_optimizer_method=bado)
        for k in list(hh):
            g = {q: v for q, v in hh.items() if q != k}
            yield nm + '.hyps', 'missing:' + k, lambda f, mod=mod, g=g: mod.predict_with_hyps(X, Y, Q, g)
        yield nm + '.hyps', 'lengthscales:too-many', lambda f, mod=mod, hh=hh: \
            mod.predict_with_hyps(X, Y, Q, dict(hh, lengthscales=np.ones(d + 1)))
    yield 'gp.kernel', 'name:criterion', lambda f: gp_kernel.get_optimized_kernel(X, Y, None, 'eq', str_modelselection_method=name(rng, 'str_modelselection_method'))
    yield 'covariance', None, lambda f: covariance.cov_main('eq', X, X, h, True)
    yield 'covariance', 'name', lambda f: covariance.cov_main(bad, X, X, h, True)
    yield 'covariance', 'same-but-different-sizes', lambda f: covariance.cov_main('eq', X, X[:-1], h, True)
    yield 'covariance', 'dimensions', lambda f: covariance.cov_main('eq', X, np.hstack([X, X]), h, False)
    yield 'covariance', 'vectors-for-set-kernel', lambda f: covariance.cov_main('set_eq', X, X, h, True)
    yield 'covariance', 'sets-for-vector-kernel', lambda f: covariance.cov_main('eq', X[:, None], X[:, None], h, True)
    yield 'acquisition', 'name', lambda f: utils_bo.choose_fun_acquisition(name(rng, 'str_acq'), 0.1)
    yield 'choose', 'cov', lambda f: covariance.choose_fun_cov(bad)
    yield 'choose', 'grad', lambda f: covariance.choose_fun_grad_cov(bad)
    yield from direct(rng, R, X, Y, h, ht, Q, bad)


def direct(rng, R, X, Y, h, ht, Q, bad):
    """Building blocks used on their own."""
    from bayeso.gp import gp, gp_likelihood, gp_kernel
    from bayeso.tp import tp, tp_likelihood
    from bayeso.trees import trees_common as tc, trees_generic_trees as tg, trees_random_forest as tr
    from bayeso.utils import utils_bo, utils_common, utils_covariance as uc
    from bayeso import covariance, acquisition
    n, d = X.shape
    mu, sg = rng.randn(5), rng.uniform(0.1, 1, 5)
    S = np.eye(5)
    for nm, fs in (('gp', lambda *a: gp.sample_functions(*a)), ('tp', lambda *a: tp.sample_functions(5.0, *a))):
        e = nm + '.draws'
        yield e, None, lambda f, fs=fs: fs(mu, S, 3)
        for k, a in (('short-mean', (mu[:-1], S, 3)), ('column-mean', (mu[:, None], S, 3)), ('rectangular', (mu, S[:-1], 3)), ('smaller', (mu, S[:-1, :-1], 3)),
                     ('flat', (mu, S.reshape(-1), 3)), ('variances', (mu, sg, 3)), ('list-mean', (mu.tolist(), S, 3)), ('count-float', (mu, S, 3.0)),
                     ('count-none', (mu, S, None))):
            yield e, k, lambda f, fs=fs, a=a: fs(*a)
    for nm, fs in (('pi', lambda m, s, y: acquisition.pi(m, s, y)), ('ei', lambda m, s, y: acquisition.ei(m, s, y)),
                   ('ucb', lambda m, s, y: acquisition.ucb(m, s, y)), ('aei', lambda m, s, y: acquisition.aei(m, s, y, 0.1))):
        e = 'acquisition.' + nm
        yield e, None, lambda f, fs=fs: fs(mu, sg, Y)
        for k, a in (('short-mean', (mu[:-1], sg, Y)), ('short-std', (mu, sg[:-1], Y)), ('column-mean', (mu[:, None], sg, Y)), ('column-std', (mu, sg[:, None], Y)),
                     ('both-columns', (mu[:, None], sg[:, None], Y)), ('list-mean', (mu.tolist(), sg, Y)), ('list-std', (mu, sg.tolist(), Y)),
                     ('one-std', (mu, sg[:1], Y))) + ((('flat-outputs', (mu, sg, Y[:, 0])), ('list-outputs', (mu, sg, Y.tolist()))) if nm != 'ucb' else ()):
            yield e, k, lambda f, fs=fs, a=a: fs(*a)
    for k, a in (('column', mu[:, None]), ('list', mu.tolist())):
        yield 'acquisition.pure', k, lambda f, a=a: acquisition.pure_exploit(a)
        yield 'acquisition.pure', k + '-std', lambda f, a=a: acquisition.pure_explore(a)
    # forests
    g = 1 if d == 1 else 2
    yield 'forest', None, lambda f: (tr.get_random_forest(X, Y, 2, 2, 2, g), tg.get_generic_trees(X, Y, 2, 2, 2, 0.5, True, g, False))
    F = tr.get_random_forest(X, Y, 2, 2, 2, g)
    for k, A, B in bad_data(rng, X, Y, dim=False):
        yield 'forest', 'data:' + k, lambda f, A=A, B=B: tr.get_random_forest(A, B, 2, 2, 2, g)
        yield 'forest', 'data-generic:' + k, lambda f, A=A, B=B: tg.get_generic_trees(A, B, 2, 2, 2, 0.5, True, g, False)
        if k not in ('list-outputs', 'list-inputs'):
            yield 'forest', 'subsample:' + k, lambda f, A=A, B=B: tc.subsample(A, B, 0.5, True)
    for k, v in enumerate(('2', None, 2.5)):
        yield 'forest', 'count:trees:%r' % (v,), lambda f, v=v: tr.get_random_forest(X, Y, v, 2, 2, g)
        yield 'forest', 'count:depth:%r' % (v,), lambda f, v=v: tr.get_random_forest(X, Y, 2, v, 2, g)
        yield 'forest', 'count:leaf:%r' % (v,), lambda f, v=v: tr.get_random_forest(X, Y, 2, 2, v, g)
    yield 'forest.predict', None, lambda f: tc.predict_by_trees(Q, F)
    for k, C in (('list', Q.tolist()), ('flat', Q.reshape(-1)), ('three-d', Q[:, None])):
        yield 'forest.predict', k, lambda f, C=C: tc.predict_by_trees(C, F)
    yield 'forest.predict', 'tuple', lambda f: tc.predict_by_trees(Q, tuple(F))
    # selection among candidates, summaries, grids
    A = rng.randn(4)
    yield 'candidates', None, lambda f: (utils_bo.get_next_best_acquisition(Q, A, X), utils_bo.get_best_acquisition_by_history(X, Y),
                                         utils_bo.check_points_in_bounds(Q, R), utils_bo.get_best_acquisition_by_evaluation(Q, lambda x: float(np.sum(x))))
    for k, a in (('fewer-values', (Q, A[:-1], X)), ('fewer-points', (Q[:-1], A, X)), ('column-values', (Q, A[:, None], X)), ('extra-dimension', (Q, A, np.hstack([X, X]))),
                 ('flat-history', (Q, A, X.reshape(-1))), ('list', (Q.tolist(), A, X))):
        yield 'candidates', k, lambda f, a=a: utils_bo.get_next_best_acquisition(*a)
    for k, A_, B_ in bad_data(rng, X, Y, dim=False):
        yield 'candidates', 'history:' + k, lambda f, A_=A_, B_=B_: utils_bo.get_best_acquisition_by_history(A_, B_)
    out = Q.copy()
    i, j = rng.randint(4), rng.randint(d)
    out[i, j] = gen.pick(rng, [np.nextafter(R[j, 1], np.inf), R[j, 1] + 1.0, np.nextafter(R[j, 0], -np.inf), np.nan])
    for k, a in (('outside', (out, R)), ('flat', (Q.reshape(-1), R)), ('dimension', (np.hstack([Q, Q]), R)), ('box', (Q, R[:, :1])), ('list', (Q.tolist(), R))):
        yield 'bounds', k, lambda f, a=a: utils_bo.check_points_in_bounds(*a)
    T = rng.rand(2, 7)
    yield 'summary', None, lambda f: (utils_common.get_minimum(T, 3), utils_common.get_time(T, 3, True), utils_common.get_grids(R[:2], 3))
    for k, a in (('flat', (T[0], 3)), ('all-initial', (T, 7)), ('more-initial', (T, 9)), ('float', (T, 3.0)), ('list', (T.tolist(), 3)), ('three-d', (T[None], 3))):
        yield 'summary', 'minimum:' + k, lambda f, a=a: utils_common.get_minimum(*a)
    for k, a in (('flat', (T[0], 3, True)), ('float', (T, 3.0, True)), ('flag', (T, 3, None)), ('list', (T.tolist(), 3, True)), ('three-d', (T[None], 3, True))):
        yield 'summary', 'time:' + k, lambda f, a=a: utils_common.get_time(*a)
    for k, B_ in bad_boxes(rng, R[:2]):
        yield 'summary', 'grids:' + k, lambda f, B_=B_: utils_common.get_grids(B_, 3)
    for v in (3.0, '3', None):
        yield 'summary', 'grids:count:%r' % (v,), lambda f, v=v: utils_common.get_grids(R[:2], v)
    # hyperparameters and likelihoods
    v = uc.convert_hyps('eq', h, fix_noise=False)
    yield 'hyps', None, lambda f: (uc.get_hyps('eq', d), uc.get_range_hyps('eq', d), uc.restore_hyps('eq', v, fix_noise=False))
    yield 'hyps', 'name', lambda f: uc.get_hyps(bad, d)
    yield 'hyps', 'name:range', lambda f: uc.get_range_hyps(bad, d)
    yield 'hyps', 'name:convert', lambda f: uc.convert_hyps(bad, h)
    yield 'hyps', 'name:restore', lambda f: uc.restore_hyps(bad, v)
    yield 'hyps', 'dim', lambda f: uc.get_hyps('eq', float(d))
    yield 'hyps', 'restore:column', lambda f: uc.restore_hyps('eq', v[:, None])
    yield 'hyps', 'restore:list', lambda f: uc.restore_hyps('eq', v.tolist())
    pm = np.zeros((n, 1))
    vt = uc.convert_hyps('eq', ht, fix_noise=False, use_gp=False)
    for nm, fl, w, kw in (('ml', gp_likelihood.neg_log_ml, v, {}), ('loo', gp_likelihood.neg_log_pseudo_l_loocv, v, {}),
                          ('tp', tp_likelihood.neg_log_ml, vt, {})):
        kw = dict(fix_noise=False)
        e = 'likelihood.' + nm
        yield e, None, lambda f, fl=fl, w=w, kw=kw: fl(X, Y, w, 'eq', pm, **kw)
        for k, A_, B_ in bad_data(rng, X, Y, dim=False):
            if k == 'two-output-columns':
                continue
            yield e, 'data:' + k, lambda f, fl=fl, w=w, kw=kw, A_=A_, B_=B_: fl(A_, B_, w, 'eq', pm, **kw)
        for k, a in (('prior-short', (X, Y, w, 'eq', pm[:-1])), ('prior-flat', (X, Y, w, 'eq', pm[:, 0])), ('prior-none', (X, Y, w, 'eq', None)), ('name', (X, Y, w, bad, pm)),
                     ('hyps-dict', (X, Y, h, 'eq', pm)), ('hyps-list', (X, Y, w.tolist(), 'eq', pm)), ('hyps-column', (X, Y, w[:, None], 'eq', pm))):
            yield e, k, lambda f, fl=fl, a=a, kw=kw: fl(*a, **kw)


def plan(tier):
    return [('sweep', 48 if tier == 'quick' else 300)]


def run(case, mon):
    import os
    seen = set()
    rng = np.random.RandomState(case['seed'])
    for entry, bad, call in requests(rng):
        f = Obj()
        try:
            call(f)
            exc = None
        except Exception as ex:
            exc = ex
        if bad is None:
            mon.check(exc is None, 'a valid request is accepted', entry=entry, exc=repr(exc))
            mon.event('valid_requests')
            continue
        mon.event('malformed_requests')
        seen.add((entry, bad))
        mon.check(exc is not None, 'a malformed request is refused', entry=entry, malformation=bad)
        mon.check(f.n == 0, 'a refused request does not evaluate the objective', entry=entry, malformation=bad, calls=f.n,
                  exc=repr(exc)[:200])
        if os.environ.get('C24_DUMP') and (exc is None or f.n):
            with open(os.environ['C24_DUMP'], 'a') as g:
                g.write('%s | %s | %r | %d\n' % (entry, bad, exc, f.n))
    mon.key(gen.digest(np.array(sorted('|'.join(q) for q in seen))))
    mon.note(malformations=len(seen))
