import copy
import hashlib
import os
import random
import sys
import threading
import types
import numpy as np
import gen
import runs

RULE = ('A case makes one public call twice, with writable and with read-only arguments, and compares results, the digests of '
        'all arguments and of the module-level defaults before and after; or replays the calls of one model with other '
        'models, functions and runs interleaved. Non-trivial always (every case observes at least one call with mutable '
        'arguments); distinct by function, option and size.')
CASE_LIMIT = 200


def plan(tier):
    k = 2 if tier == 'quick' else 12
    return [('call', 700 * k), ('model', 120 * k), ('wrapper', 90 * k), ('interleave', 60 * k), ('threads', 24 * k), ('plot', 36 * k), ('inplace', 1)]


def feed(h, o):
    if isinstance(o, dict):
        h.update(b'{')
        for k in o:
            h.update(repr(k).encode())
            feed(h, o[k])
    elif isinstance(o, (list, tuple)):
        h.update(type(o).__name__.encode())
        for v in o:
            feed(h, v)
    elif isinstance(o, np.ndarray):
        h.update(str((o.shape, o.dtype)).encode())
        h.update(repr(o.tolist()).encode() if o.dtype == object else np.ascontiguousarray(o).tobytes())
    elif callable(o):
        h.update(b'fn')
    elif isinstance(o, float):
        h.update(np.float64(o).tobytes())
    else:
        h.update(repr(o).encode())
    return h


def digest(o):
    return feed(hashlib.sha256(), o).hexdigest()[:24]


def freeze(o):
    if isinstance(o, np.ndarray):
        o.setflags(write=False)
    elif isinstance(o, dict):
        for v in o.values():
            freeze(v)
    elif isinstance(o, (list, tuple)):
        for v in o:
            freeze(v)
    return o


def clone(o):
    if isinstance(o, np.ndarray):
        return np.array(o, copy=True)
    if isinstance(o, dict):
        return {k: clone(v) for k, v in o.items()}
    if isinstance(o, list):
        return [clone(v) for v in o]
    if isinstance(o, tuple):
        return tuple(clone(v) for v in o)
    return o


def arrange(o, how, keep):
    """The same values in another memory layout; keep collects the surrounding buffers."""
    if isinstance(o, np.ndarray) and o.dtype.kind == 'f' and o.ndim:
        if how == 'fortran':
            return np.asfortranarray(o)
        if how == 'view':
            big = np.full(tuple(2 * q + 1 for q in o.shape), 12345.0, dtype=o.dtype)
            v = big[tuple(slice(1, None, 2) for _ in o.shape)]
            v[...] = o
            keep.append((big, v))
            return v
        if how == 'rows':               # contiguous rows of a longer array
            big = np.full((o.shape[0] + 4,) + o.shape[1:], 12345.0, dtype=o.dtype)
            v = big[2:2 + o.shape[0]]
            v[...] = o
            keep.append((big, v))
            return v
        return o
    if isinstance(o, dict):
        return {k: arrange(v, how, keep) for k, v in o.items()}
    if isinstance(o, list):
        return [arrange(v, how, keep) for v in o]
    if isinstance(o, tuple):
        return tuple(arrange(v, how, keep) for v in o)
    return o


def poison(o, seen=None):
    """What a caller may do with a result: overwrite it."""
    seen = set() if seen is None else seen
    if id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.dtype.kind in 'fi':
            o[...] = -77
    elif isinstance(o, dict):
        for k in list(o):
            poison(o[k], seen)
            if isinstance(o[k], (float, int, np.floating)):
                o[k] = -77.0
        o['poison'] = 1
    elif isinstance(o, list):
        for v in o:
            poison(v, seen)
        for i, v in enumerate(o):
            if isinstance(v, (float, int, np.floating)):
                o[i] = -77.0
        o.append(-77.0)
    elif isinstance(o, tuple):
        for v in o:
            poison(v, seen)


def defaults():
    from bayeso import constants
    h = hashlib.sha256()
    for k in sorted(dir(constants)):
        if k.isupper() and not k.startswith('TYP'):
            h.update(k.encode())
            feed(h, getattr(constants, k))
    for name in sorted(sys.modules):
        if name == 'bayeso' or name.startswith('bayeso.'):
            m = sys.modules[name]
            for a in sorted(vars(m)):
                f = getattr(m, a)
                if isinstance(f, types.FunctionType):
                    g = getattr(f, '__wrapped__', f)
                    feed(h, g.__defaults__ or ())
                elif isinstance(f, type) and f.__module__.startswith('bayeso'):
                    for b in sorted(vars(f)):
                        q = vars(f)[b]
                        if isinstance(q, types.FunctionType):
                            feed(h, q.__defaults__ or ())
    return h.hexdigest()[:24]


def process_state():
    """Settings of the process which belong to the caller."""
    po = {k: repr(v) for k, v in np.get_printoptions().items()}
    return dict(errors=dict(np.geterr()), printing=po, cwd=os.getcwd(), environment=dict(os.environ), random=hash(random.getstate()),
                recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval())


class CachedPrior:
    """A prior mean which keeps and hands out the arrays it computed."""

    def __init__(self, f, readonly=False):
        self.f, self.readonly, self.known, self.calls = f, readonly, {}, 0

    def __call__(self, X):
        self.calls += 1
        X = np.asarray(X, float)
        k = (X.shape, X.tobytes())
        if k not in self.known:
            v = self.f(X)
            v.setflags(write=not self.readonly)
            self.known[k] = (v, v.copy())
        return self.known[k][0]

    def intact(self):
        return all(np.array_equal(a, b) for a, b in self.known.values())


def load_all():
    import importlib
    import pkgutil
    import bayeso
    for m in pkgutil.walk_packages(bayeso.__path__, 'bayeso.'):
        importlib.import_module(m.name)


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a if not str(k).startswith('time'))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (np.ndarray, float, int, np.floating, np.integer)):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.array_equal(a, b) or (a.dtype.kind == 'f' and np.array_equal(a, b, equal_nan=True)))
    if isinstance(a, str) or a is None:
        return a == b
    return True


# ---------------------------------------------------------------- calls

def hy(rng, d, gp=True):
    return gen.hyps(rng, d, use_gp=gp, ls=(0.3, 2.0))


def vec(h, tp, fix):
    from props.c08 import to_vec
    return to_vec(h, tp, fix)


def table(rng):
    """A random public call: (name, function, args, kwargs)."""
    from bayeso import covariance as cv, acquisition as aq, thompson_sampling as ts
    from bayeso.gp import gp, gp_kernel, gp_likelihood
    from bayeso.tp import tp, tp_kernel, tp_likelihood
    from bayeso.trees import trees_common as tc, trees_random_forest as rf, trees_generic_trees as gt
    from bayeso.utils import utils_bo as ub, utils_common as uc, utils_covariance as uv, utils_gp as ug, utils_logger as ul
    d = gen.pick(rng, [1, 2, 3])
    n = gen.pick(rng, [1, 3, 8])
    q = gen.pick(rng, [1, 4, 9])
    X, Y, _ = gen.data(rng, n, d)
    Q = rng.uniform(-2, 2, (q, d))
    name = gen.pick(rng, gen.COV)
    ard = gen.chance(rng, 0.5)
    fix = gen.chance(rng, 0.5)
    h = gen.hyps(rng, d, ard=ard, ls=(0.3, 2.0))
    ht = gen.hyps(rng, d, use_gp=False, ard=ard, ls=(0.3, 2.0))
    prior = gen.prior_fun(rng)
    if prior is not None:
        prior = CachedPrior(prior, gen.chance(rng, 0.5))
    pm = np.zeros((n, 1)) if prior is None else prior(X)
    R = np.array([[-2.0, 2.0]] * d)
    S = rng.randn(q, q)
    S = S @ S.T + np.eye(q)
    K, Ki = cv.get_kernel_inverse(X.copy(), dict(h), name)[:2]
    sx = rng.randn(n, 3, d)
    sq = rng.randn(q, 2, d)
    mean, std = rng.randn(q), np.abs(rng.randn(q))
    trees = rf.get_random_forest(X.copy(), Y.copy(), 3, 3, 1, d)
    L = [
        ('cov_main', cv.cov_main, (name, X, Q, h, False), {}),
        ('cov_main_same', cv.cov_main, (name, X, X, h, True), {}),
        ('cov_main_set', cv.cov_main, ('set_' + name, sx, sq, h, False), {}),
        ('cov_set', cv.cov_set, (name, sx[0], sq[0], h['lengthscales'], h['signal']), {}),
        ('cov_se', cv.cov_se, (X, Q, h['lengthscales'], h['signal']), {}),
        ('cov_matern32', cv.cov_matern32, (X, Q, h['lengthscales'], h['signal']), {}),
        ('cov_matern52', cv.cov_matern52, (X, Q, h['lengthscales'], h['signal']), {}),
        ('grad_cov_main', cv.grad_cov_main, (name, X, X, h, fix), {}),
        ('get_kernel_inverse', cv.get_kernel_inverse, (X, h, name), {'fix_noise': fix, 'use_gradient': gen.chance(rng, 0.5)}),
        ('get_kernel_cholesky', cv.get_kernel_cholesky, (X, h, name), {'fix_noise': fix, 'use_gradient': gen.chance(rng, 0.5)}),
        ('pi', aq.pi, (mean, std, Y), {}), ('ei', aq.ei, (mean, std, Y), {}), ('ucb', aq.ucb, (mean, std), {'Y_train': Y}),
        ('aei', aq.aei, (mean, std, Y, 0.1), {}), ('pure_exploit', aq.pure_exploit, (mean,), {}), ('pure_explore', aq.pure_explore, (std,), {}),
        ('gp.sample', gp.sample_functions, (mean, S), {'num_samples': 3}),
        ('tp.sample', tp.sample_functions, (5.0, mean, S), {'num_samples': 3}),
        ('gp.with_cov', gp.predict_with_cov, (X, Y, Q, K, Ki, h), {'str_cov': name, 'prior_mu': prior}),
        ('gp.with_hyps', gp.predict_with_hyps, (X, Y, Q, h), {'str_cov': name, 'prior_mu': prior}),
        ('gp.fit', gp.predict_with_optimized_hyps, (X, Y, Q), {'str_cov': name, 'prior_mu': prior}),
        ('tp.with_cov', tp.predict_with_cov, (X, Y, Q, K, Ki, dict(h, dof=5.0)), {'str_cov': name, 'prior_mu': prior}),
        ('tp.with_hyps', tp.predict_with_hyps, (X, Y, Q, ht), {'str_cov': name, 'prior_mu': prior}),
        ('tp.fit', tp.predict_with_optimized_hyps, (X, Y, Q), {'str_cov': name, 'prior_mu': prior}),
        ('gp_kernel', gp_kernel.get_optimized_kernel, (X, Y, prior, name), {'str_optimizer_method': gen.pick(rng, gen.OPT_GP), 'use_ard': ard, 'fix_noise': fix,
                                                                            'str_modelselection_method': gen.pick(rng, ['ml', 'loocv'])}),
        ('tp_kernel', tp_kernel.get_optimized_kernel, (X, Y, prior, name), {'str_optimizer_method': gen.pick(rng, gen.OPT_TP), 'use_ard': ard, 'fix_noise': fix}),
        ('gp_ml', gp_likelihood.neg_log_ml, (X, Y, vec(h, False, fix), name, pm), {'use_ard': ard, 'fix_noise': fix}),
        ('gp_ml_inv', gp_likelihood.neg_log_ml, (X, Y, vec(h, False, fix), name, pm), {'use_ard': ard, 'fix_noise': fix, 'use_cholesky': False, 'use_gradient': False}),
        ('gp_loo', gp_likelihood.neg_log_pseudo_l_loocv, (X, Y, vec(h, False, fix), name, pm), {'use_ard': ard, 'fix_noise': fix}),
        ('tp_ml', tp_likelihood.neg_log_ml, (X, Y, vec(ht, True, fix), name, pm), {'use_ard': ard, 'fix_noise': fix}),
        ('normalize', ub.normalize_min_max, (Y,), {}),
        ('best_by_eval', ub.get_best_acquisition_by_evaluation, (Q, lambda x: float(np.sum(x ** 2))), {}),
        ('best_by_hist', ub.get_best_acquisition_by_history, (X, Y), {}),
        ('next_best', ub.get_next_best_acquisition, (Q, mean, np.vstack([X, Q[:max(q - 1, 1)]])), {}),
        ('in_bounds', ub.check_points_in_bounds, (Q, R), {}),
        ('hyps_convergence', ub.check_hyps_convergence, ([dict(h), dict(h)], h, name, fix), {}),
        ('grids', uc.get_grids, (R, 3), {}),
        ('minimum', uc.get_minimum, (rng.randn(3, 7), 2), {}),
        ('time', uc.get_time, (np.abs(rng.randn(3, 7)), 2, gen.chance(rng, 0.5)), {}),
        ('convert', uv.convert_hyps, (name, h), {'fix_noise': fix}),
        ('restore', uv.restore_hyps, (name, vec(h, False, fix)), {'use_ard': ard, 'fix_noise': fix}),
        ('hyps', uv.get_hyps, (name, d), {'use_ard': ard, 'use_gp': fix}),
        ('range_hyps', uv.get_range_hyps, (name, d), {'use_ard': ard, 'fix_noise': fix}),
        ('validate_hyps', uv.validate_hyps_dict, (h, name, d), {}),
        ('validate_hyps_tp', uv.validate_hyps_dict, (ht, name, d), {'use_gp': False}),
        ('prior', ug.get_prior_mu, (prior, X), {}),
        ('str_array', ul.get_str_array, (X,), {}), ('str_array3', ul.get_str_array, (sx,), {}), ('str_hyps', ul.get_str_hyps, (h,), {}),
        ('forest', rf.get_random_forest, (X, Y, 3, 4, 1, d), {}),
        ('generic', gt.get_generic_trees, (X, Y, 3, 4, 1, 1.0, gen.chance(rng, 0.5), d, gen.chance(rng, 0.5)), {}),
        ('predict_trees', tc.predict_by_trees, (Q, trees), {}),
        ('unit_predict_trees', tc.unit_predict_by_trees, (Q, trees), {}),
        ('subsample', tc.subsample, (X, Y, 1.0, True), {}),
        ('compute_sigma', tc.compute_sigma, (mean, std), {}),
        ('leaf', tc.get_outputs_from_leaf, ([(x, y) for x, y in zip(X, Y)],), {}),
        ('mse', tc.mse, (([(x, y) for x, y in zip(X, Y)], [(x, y) for x, y in zip(X, Y)]),), {}),
        ('ts_step', ts.thompson_sampling_gp_iteration, (R, X, Y), {'str_sampling_method': 'grid', 'num_samples': 3, 'normalize_Y': gen.chance(rng, 0.5)}),
    ]
    return L


def quiet_error(kind, flag):
    pass


def check_call(mon, name, f, args, kw, compare=True, how='plain'):
    g = int(np.random.randint(10 ** 6))
    ctx = dict(call=name, layout=how)
    keep = []
    a1, k1 = arrange((clone(args), clone(kw)), how, keep)
    d0 = digest((a1, k1))
    m0 = defaults()
    # no setting is one the code would plausibly choose, so one which it leaves behind shows
    with np.errstate(all='call', call=quiet_error):
        p0 = process_state()
        np.random.seed(g)
        r1 = f(*a1, **k1)
        p1 = process_state()
    mon.check(p1 == p0, 'settings of the process are not modified', changed=[q for q in p0 if p0[q] != p1[q]], **ctx)
    for z in list(args) + list(kw.values()):
        if isinstance(z, CachedPrior):
            mon.check(z.intact(), 'arrays returned by the prior mean are not modified', **ctx)
            mon.event('prior_arrays', len(z.known))
    mon.check(digest((a1, k1)) == d0, 'arguments are not modified', **ctx)
    for big, v in keep:
        before = big.copy()
        v[...] = 12345.0
        mon.check(bool(np.all(big == 12345.0)), 'memory around the arguments is not modified', **ctx)
        big[...] = before
    a2, k2 = freeze(arrange((clone(args), clone(kw)), how, []))
    r1c = copy.deepcopy(r1) if compare else None
    np.random.seed(g)
    r2 = f(*a2, **k2)                       # an in-place operation on a read-only array raises
    mon.check(digest((a2, k2)) == d0, 'read-only arguments are not modified', **ctx)
    if compare:
        mon.check(same(r1c, r2), 'read-only and writable arguments give the same result', **ctx)
        mon.check(same(r1c, r1), 'an earlier result is not changed by a later call', **ctx)
    mon.check(defaults() == m0, 'module-level defaults are not modified', **ctx)
    if compare:
        # the caller overwrites a result and calls again
        poison(r2)
        for z in list(args) + list(kw.values()):
            if isinstance(z, CachedPrior):
                z.known.clear()             # a result may be the very array the prior mean returned
        mon.check(defaults() == m0, 'results do not share memory with module-level defaults', **ctx)
        np.random.seed(g)
        r3 = f(*arrange(clone(args), how, []), **arrange(clone(kw), how, []))
        mon.check(same(r1c, r3), 'overwriting a result does not influence later calls', **ctx)
    mon.event('call:' + name)
    mon.event('layout:' + how)
    return r1


def run(case, mon):
    load_all()
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    if k == 'inplace':
        from bayeso.utils import utils_covariance as uv
        h = {'noise': 0.01, 'dof': 1.5, 'signal': 1.0, 'lengthscales': np.ones(2)}
        uv.validate_hyps_dict(h, 'eq', 2, use_gp=False)
        mon.event('assertions')
        if h['dof'] != 1.5:
            mon.finding('validate-hyps-in-place', after=h['dof'])
        mon.key(k)
        return
    if k == 'call':
        L = table(rng)
        name, f, a, kw = L[case['i'] % len(L)]
        check_call(mon, name, f, a, kw, how=gen.pick(rng, ['plain', 'fortran', 'view', 'rows']))
        mon.key(name, case['i'] // len(L))
        mon.note(call=name)
        return
    if k == 'plot':
        return plots(case, mon, rng)
    if k == 'model':
        return model(case, mon, rng)
    if k == 'threads':
        return threads(case, mon, rng)
    if k == 'wrapper':
        return wrapper(case, mon, rng)
    return interleave(case, mon, rng)


def make(rng, s, R, d):
    from bayeso import bo
    acq = gen.pick(rng, gen.ACQ)
    cov, ard = gen.pick(rng, gen.COV), gen.chance(rng, 0.6)
    if s == 'gp':
        og, sel = gen.pick(rng, gen.OPT_GP), gen.pick(rng, ['ml', 'loocv'], [0.8, 0.2])
        return lambda r=R: bo.BOwGP(r, str_cov=cov, str_acq=acq, use_ard=ard, str_optimizer_method_gp=og, str_modelselection_method=sel)
    if s == 'tp':
        ot = gen.pick(rng, gen.OPT_TP)
        return lambda r=R: bo.BOwTP(r, str_cov=cov, str_acq=acq, use_ard=ard, str_optimizer_method_tp=ot)
    return lambda r=R: bo.BOwTrees(r, str_acq=acq)


def model(case, mon, rng):
    d = gen.pick(rng, [1, 2, 3])
    n = gen.pick(rng, [1, 3, 7])
    R, fl = gen.box(rng, d, gen.pick(rng, ['unit', 'sym', 'ints', 'negative']))
    X = gen.inside(rng, R, n)
    f = gen.objective(rng, R)
    Y = np.array([[f(x)] for x in X])
    s = gen.pick(rng, ['gp', 'tp', 'rf'])
    mk = make(rng, s, R, d)
    meth = gen.pick(rng, gen.SAMP + ['grid'])
    ns = 3 if s != 'rf' else (3 if meth == 'grid' else 60)
    kw = dict(str_sampling_method=meth, num_samples=ns, seed=int(rng.randint(1000)))
    if s == 'gp':
        kw['str_mlm_method'] = gen.pick(rng, gen.MLM)

    def whole(R, X, Y, kw):
        m = mk(R)
        p, info = m.optimize(X, Y, **kw)
        a = m.get_initials(gen.SAMP[len(X) % 4], 3, seed=1)
        b = m.get_samples(meth, num_samples=3, seed=2)
        Q = np.array(b, copy=True)
        Q.setflags(write=False)
        Yn = info['Y_normalized']
        if s == 'rf':
            e1, e2 = m.compute_posteriors(Q, info['trees']), m.compute_acquisitions(Q, X, Yn, info['trees'])
        else:
            c, i, h = (freeze(clone(info[q])) for q in ('cov_X_X', 'inv_cov_X_X', 'hyps'))
            dg = digest((c, i, h))
            e1, e2 = m.compute_posteriors(X, Yn, Q, c, i, h), m.compute_acquisitions(Q, X, Yn, c, i, h)
            mon.check(digest((c, i, h)) == dg, 'matrices and hyperparameters are not modified', surrogate=s)
        return p, {q: v for q, v in info.items() if q != 'trees'}, a, b, e1, e2
    check_call(mon, s + '.model', whole, (R, X, Y, kw), {}, how=gen.pick(rng, ['plain', 'plain', 'fortran', 'view', 'rows']))
    mon.key('model', s, d, n, meth, str(kw.get('str_mlm_method')), fl, f.kind)
    mon.note(surrogate=s, d=d, n=n, method=meth)


def wrapper(case, mon, rng):
    s = gen.pick(rng, ['gp', 'tp', 'rf'], [0.5, 0.3, 0.2])
    c = runs.config(rng, s, entry=gen.pick(rng, ['class.inputs', 'class.all', 'class.single'] + (['fn.inputs', 'fn.all', 'fn.round'] if s == 'gp' else [])))
    c['n_iter'] = min(c['n_iter'], 3)
    d = c['d']
    R, fl = gen.box(rng, d, gen.pick(rng, ['unit', 'sym', 'ints', 'negative']))
    f = gen.objective(rng, R)
    n = c['n_init']
    X0 = gen.inside(rng, R, n)
    Y0 = np.array([[f(x)] for x in X0])
    c['seed'] = 3

    def whole(R, X0, Y0):
        rec = runs.Recorder(f, c['ret'])
        single = c['entry'] == 'class.single'
        cc = dict(c, entry='class.all') if single else c
        b, m = runs.build(cc, R, rec)
        if single:
            p, info = b.optimize_single_iteration(X0, Y0)[:2]
            return np.array(p)
        r = runs.execute(cc, b, m, rec, X0, Y0)
        return [np.array(q) for q in r[:2]]
    check_call(mon, 'wrapper.' + c['entry'], whole, (R, X0, Y0), {}, compare=False, how=gen.pick(rng, ['plain', 'fortran', 'view', 'rows']))
    mon.key('wrapper', *runs.key(c))


def threads(case, mon, rng):
    """Several models used at the same time give what each gives alone."""
    m = gen.pick(rng, [2, 3, 4])
    jobs = []
    for j in range(m):
        s = gen.pick(rng, ['gp', 'gp', 'tp', 'call'])
        d = gen.pick(rng, [1, 2, 3])
        R, _ = gen.box(rng, d, gen.pick(rng, ['unit', 'sym', 'ints', 'negative']))
        X = gen.inside(rng, R, gen.pick(rng, [2, 4, 7]))
        f = gen.objective(rng, R, gen.pick(rng, ['quad', 'sin', 'linear', 'bump']))
        Y = np.array([[f(x)] for x in X])
        h = gen.hyps(rng, d, ls=(0.3, 2.0))
        Q = gen.inside(rng, R, gen.pick(rng, [3, 40]))
        if s == 'call':
            from bayeso import covariance as cv
            from bayeso.gp import gp
            name = gen.pick(rng, gen.COV)
            sq = rng.randn(6, 3, d)
            jobs.append(('call', lambda X=X, Y=Y, Q=Q, h=h, name=name, sq=sq: [gp.predict_with_hyps(X, Y, Q, h, str_cov=name) for _ in range(6)] +
                         [cv.cov_main(name, Q, X, h, False), cv.cov_main('set_' + name, sq, sq, h, True), cv.get_kernel_cholesky(X, h, name, use_gradient=True)]))
            continue
        mk = make(rng, s, R, d)
        meth = gen.pick(rng, gen.SAMP)
        seed = int(rng.randint(1000))

        def job(mk=mk, X=X, Y=Y, meth=meth, seed=seed):
            o = mk()
            out = []
            for t in range(2):
                p, info = o.optimize(X, Y, str_sampling_method=meth, num_samples=2, seed=seed + t)
                out.append((p, {q: v for q, v in info.items() if not q.startswith('time')}, o.get_initials(meth, 5, seed=seed), o.get_samples(meth, num_samples=3, seed=t)))
            return out
        jobs.append((s, job))
    alone = [j() for _, j in jobs]
    got, errs = [None] * m, []
    gate = threading.Barrier(m)

    def work(i):
        try:
            gate.wait(30)
            got[i] = jobs[i][1]()
        except Exception as e:       # reported below, from the main thread
            errs.append((jobs[i][0], repr(e)))
    iv = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        T = [threading.Thread(target=work, args=(i,)) for i in range(m)]
        [t.start() for t in T]
        [t.join() for t in T]
    finally:
        sys.setswitchinterval(iv)
    ctx = dict(models=[j[0] for j in jobs])
    mon.check(not errs, 'models used at the same time do not fail', errors=errs[:2], **ctx)
    if not errs:
        for i in range(m):
            mon.check(same(alone[i], got[i]), 'models used at the same time give what each gives alone', which=jobs[i][0], **ctx)
    mon.event('concurrent_jobs', m)
    mon.key('threads', *[j[0] for j in jobs], case['i'])


def plots(case, mon, rng):
    from bayeso.utils import utils_plotting as up
    import matplotlib.pyplot as plt
    n, q = gen.pick(rng, [2, 5]), gen.pick(rng, [3, 20])
    Xt, Yt = rng.rand(n, 1), rng.randn(n, 1)
    X = np.linspace(0, 1, q)[:, None]
    mu, sd, Yq, ac = rng.randn(q, 1), np.abs(rng.randn(q, 1)), rng.randn(q, 1), rng.randn(q, 1)
    M = rng.randn(2, 3, 7)
    T = np.abs(rng.randn(2, 3, 7))
    L = [('plot_sample', up.plot_gp_via_sample, (X, rng.randn(3, q))),
         ('plot_distribution', up.plot_gp_via_distribution, (Xt, Yt, X, mu, sd, Yq)),
         ('plot_iter', up.plot_minimum_vs_iter, (M, ['a', 'b'], 2, True)),
         ('plot_time', up.plot_minimum_vs_time, (T, M, ['a', 'b'], 2, True)),
         ('plot_step', up.plot_bo_step, (Xt, Yt, X, Yq, mu, sd)),
         ('plot_step_acq', up.plot_bo_step_with_acq, (Xt, Yt, X, Yq, mu, sd, ac))]
    name, f, a = L[case['i'] % len(L)]
    check_call(mon, name, lambda *z: f(*z, pause_figure=False), a, {}, compare=False)
    plt.close('all')
    mon.key(name, n, q)


def interleave(case, mon, rng):
    from bayeso import bo, thompson_sampling as ts
    s = gen.pick(rng, ['gp', 'gp', 'gp', 'tp', 'rf'])
    d = gen.pick(rng, [1, 2])
    R, fl = gen.box(rng, d, gen.pick(rng, ['unit', 'sym', 'ints']))
    f = gen.objective(rng, R, gen.pick(rng, ['quad', 'sin', 'linear']))
    mk = make(rng, s, R, d)
    n0 = gen.pick(rng, [2, 4])
    T = 5
    X = gen.inside(rng, R, n0 + T)
    Y = np.array([[f(x)] for x in X])
    mode = gen.pick(rng, ['converged', 'converged', 'regular', 'combined'])
    meth = gen.pick(rng, gen.SAMP)

    def step(m, t):
        np.random.seed(100 + t)
        kw = {'str_mlm_method': mode} if s == 'gp' else {}
        r = m.optimize(X[:n0 + t].copy(), Y[:n0 + t].copy(), str_sampling_method=meth, num_samples=2 if s != 'rf' else 30, seed=t, **kw)
        e = m.get_samples(meth, num_samples=2, seed=t)
        out = clone((r[0], {q: v for q, v in r[1].items() if q != 'trees' and not q.startswith('time')}, e))
        if spoil:
            poison((r[0], r[1], e))
        return out

    spoil = False
    m = mk()
    alone = [step(m, t) for t in range(T)]
    m2 = mk()
    others = [mk(), make(rng, gen.pick(rng, ['gp', 'tp', 'rf']), R, d)()]
    R2, _ = gen.box(rng, d, 'unit')
    acts = 0
    spoil = gen.chance(rng, 0.5)          # the caller overwrites what a step returned
    for t in range(T):
        r = step(m2, t)
        mon.check(same(alone[t], r), 'results of a model do not depend on what happened in between', surrogate=s, mode=mode, step=t, acts=acts, results_overwritten=spoil)
        for _ in range(rng.randint(1, 4)):
            a = gen.pick(rng, ['other', 'twin', 'new', 'ts', 'call', 'gc'])
            acts += 1
            mon.event('interference:' + a)
            if a in ('other', 'twin'):
                o = others[1] if a == 'other' else others[0]
                kw = {'str_mlm_method': gen.pick(rng, ['converged', 'regular'])} if isinstance(o, bo.BOwGP) else {}
                x = gen.inside(rng, R, 3)
                o.optimize(x, np.array([[-f(z)] for z in x]), num_samples=2, **kw)
            elif a == 'new':
                others[1] = make(rng, gen.pick(rng, ['gp', 'tp', 'rf']), R2, d)()
                others[1].get_samples('sobol', num_samples=2)
                others[1] = make(rng, gen.pick(rng, ['gp', 'tp', 'rf']), R, d)()
            elif a == 'ts':
                ts.thompson_sampling_gp_iteration(R, X[:3], Y[:3], num_samples=4)
            elif a == 'call':
                L = table(rng)
                nm, fn, ar, kw = L[rng.randint(len(L))]
                fn(*ar, **kw)
            else:
                np.random.seed(int(rng.randint(1000)))
    mon.key('interleave', s, mode if s == 'gp' else '', d, meth, f.kind, n0)
    mon.note(surrogate=s, mode=mode, interfering_calls=acts)
