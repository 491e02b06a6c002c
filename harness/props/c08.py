import numpy as np
import scipy.special
import gen
import ref
import runs  # noqa

RULE = ('A case compares the analytic gradient of a kernel matrix or likelihood with finite differences of the returned '
        'values and with the trace formula evaluated on an independently differentiated kernel. Non-trivial when some '
        'component of the derivative is not negligible; distinct by kind, kernel, dimension, size, flags.')
ASSUMPTIONS = ['the constant diagonal jitter (1e-5) may or may not be counted as proportional to the squared signal (the '
               'tests pin that it is)']


def plan(tier):
    k = 15 if tier == "quick" else 60
    return [('cov', 500 * k), ('gp', 500 * k), ('tp', 500 * k)]


def to_vec(h, tp, fix):
    v = [] if fix else [h['noise']]
    if tp:
        v.append(h['dof'])
    v.append(h['signal'])
    v += list(np.atleast_1d(h['lengthscales']))
    return np.array(v, float)


def from_vec(v, tp, fix, ard):
    h = {}
    i = 0
    h['noise'] = 0.01
    if not fix:
        h['noise'] = float(v[0])
        i = 1
    if tp:
        h['dof'] = float(v[i])
        i += 1
    h['signal'] = float(v[i])
    h['lengthscales'] = np.array(v[i + 1:]) if ard else float(v[i + 1])
    return h


def fd(f, v, i, rel=2e-3):
    """Fourth-order central difference of an array-valued function."""
    s = rel * abs(v[i])
    out = 0
    for c, w in ((-2, 1.0), (-1, -8.0), (1, 8.0), (2, -1.0)):
        u = v.copy()
        u[i] += c * s
        out = out + w * np.asarray(f(u))
    return out / (12 * s)


def run(case, mon):
    from bayeso import covariance as cv
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    tp = k == 'tp'
    d = gen.pick(rng, [1, 2, 3, 6, 9, 14], [.22, .22, .22, .2, .08, .06])
    n = gen.pick(rng, [1, 2, 3, 5, 10, 25, 60], [.14, .16, .16, .17, .17, .16, .04])
    name = gen.pick(rng, gen.COV)
    ard = gen.chance(rng, 0.6)
    fix = gen.chance(rng, 0.5)
    X, Y, st = gen.data(rng, n, d)
    prior = gen.prior_fun(rng)
    m = np.zeros((n, 1)) if prior is None else prior(X)
    h = gen.hyps(rng, d, use_gp=not tp, ard=ard, noise=0.01 if fix else None, ls=(0.3, 4.0))
    if tp and gen.chance(rng, 0.2):
        h['dof'] = float(gen.pick(rng, [2.05, 150.0]))
    if ard and gen.chance(rng, 0.12):   # as at the default start, or nearly
        h['lengthscales'] = np.full(d, gen.pick(rng, [1.0, float(h['lengthscales'][0])]))
        if d > 1 and gen.chance(rng, 0.3):
            h['lengthscales'][-1] *= 1.25
    if gen.chance(rng, 0.15):          # unconstrained optimizers visit such hyperparameters
        h['signal'] = -h['signal']
    if gen.chance(rng, 0.1):
        h['lengthscales'] = h['lengthscales'] * (rng.choice([-1.0, 1.0], d) if ard else -1.0)
    v = to_vec(h, tp, fix)
    ctx = dict(name=name, d=d, n=n, ard=ard, fix=fix, style=st, hyps=h, prior=getattr(prior, 'kind', None))

    def cov(u):
        return ref.train_cov(name, X, from_vec(u, tp, fix, ard))

    idx_k = [i for i in range(len(v)) if not (tp and i == (0 if fix else 1))]     # components of the kernel
    i_sig = (0 if fix else 1) + (1 if tp else 0)
    dK = {i: fd(cov, v, i) for i in idx_k}
    dKj = dict(dK)
    dKj[i_sig] = dK[i_sig] + 2e-5 / h['signal'] * np.eye(n)         # jitter counted with the squared signal
    if k == 'cov':
        jit = gen.pick(rng, [None, 1e-5])
        kw = {} if jit is None else {'jitter': jit}
        g = cv.grad_cov_main(name, X, X, h, fix, **kw)
        if not mon.check(g.shape == (n, n, len(v)), 'gradient has one matrix per hyperparameter', got=g.shape, want=(n, n, len(v)), **ctx):
            return
        for i in idx_k:
            t = 1e-7 * (np.abs(dK[i]) + h['signal'] ** 2 * 1e-3 / abs(v[i])) + 1e-9
            if i == i_sig:
                ok = np.all(np.abs(g[:, :, i] - dK[i]) <= t)
                if not ok and np.all(np.abs(g[:, :, i] - dKj[i]) <= t):
                    mon.finding('signal-gradient-jitter', got=g[0, 0, i], want=dK[i][0, 0])
                    ok = True
            else:
                ok = np.all(np.abs(g[:, :, i] - dK[i]) <= t)
            mon.check(bool(ok), 'kernel gradient is the derivative', component=i, got=g[:, :, i].reshape(-1)[:6],
                      want=dK[i].reshape(-1)[:6], **ctx)
        # through the regression matrices
        fun = gen.pick(rng, [cv.get_kernel_inverse, cv.get_kernel_cholesky])
        g2 = fun(X, h, name, fix_noise=fix, use_gradient=True)[2]
        mon.close(g2, g, 'regression matrices return the same gradient', rtol=1e-10, atol=1e-12)
        mon.event('components', len(idx_k))
        mon.key(k, name, d, n, ard, fix)
        return
    K = cov(v)
    cond = np.linalg.cond(K)
    if cond > 1e9:
        mon.event('ill_conditioned_skipped')
        return
    Ki = np.linalg.inv(K)
    r = Y - m
    al = Ki @ r
    beta = float(np.squeeze(r.T @ al))
    f = 1.0
    if tp:
        f = (h['dof'] + n) / (h['dof'] + beta - 2.0)
    W = -0.5 * (f * (al @ al.T) - Ki) / n                # derivative of the criterion with respect to K
    aW = 0.5 * (f * np.abs(al) @ np.abs(al).T + np.abs(Ki)) / n
    if tp:
        from bayeso.tp import tp_likelihood as lik
        val, g = lik.neg_log_ml(X, Y, v, name, m, use_ard=ard, fix_noise=fix, use_gradient=True)

        def lib(u):
            return float(lik.neg_log_ml(X, Y, u, name, m, use_ard=ard, fix_noise=fix, use_gradient=False))
    else:
        from bayeso.gp import gp_likelihood as lik
        val, g = lik.neg_log_ml(X, Y, v, name, m, use_ard=ard, fix_noise=fix, use_gradient=True)

        def lib(u):
            return float(lik.neg_log_ml(X, Y, u, name, m, use_ard=ard, fix_noise=fix, use_gradient=False))
    g = np.asarray(g, float)
    if not mon.check(g.shape == v.shape, 'one derivative per hyperparameter', got=g.shape, want=v.shape, **ctx):
        return
    mon.close(float(np.squeeze(val)), lib(v), 'value with and without gradient', rtol=1e-9, atol=1e-9, **ctx)
    big = False
    for i in idx_k:
        w0 = float(np.sum(W * dK[i]))
        w1 = float(np.sum(W * dKj[i]))
        mag = float(np.sum(aW * np.abs(dKj[i])))
        t = 1e-6 * mag + 1e-9 + 2e-12 * float(np.sum(aW)) * float(K[0, 0]) / abs(v[i]) + 100 * cond * 2.2e-16 * mag
        ok = abs(g[i] - w0) <= t
        if not ok and i == i_sig and abs(g[i] - w1) <= t:
            mon.finding('signal-gradient-jitter', got=g[i], want=w0)
            ok = True
        mon.check(ok, 'likelihood gradient is the derivative', component=i, got=g[i], want=w0, tol=t, **ctx)
        big |= abs(w0) > 100 * t
        # and of the returned values themselves (coarser: rounding of the value)
        num = float(fd(lib, v, i))
        t2 = 1e-4 * mag + 1e-7 + abs(w1 - w0) + 1e-12 * cond * (1 + abs(float(np.squeeze(val)))) / abs(v[i])
        mon.check(abs(num - g[i]) <= t2, 'likelihood gradient agrees with differences of the returned values', component=i,
                  got=g[i], want=num, tol=t2, **ctx)
    if tp:
        j = 0 if fix else 1
        nu = h['dof']
        psi = scipy.special.digamma((nu + n) / 2.0) - scipy.special.digamma(nu / 2.0)
        true = -(-n / (2 * (nu - 2)) + 0.5 * psi - 0.5 * np.log1p(beta / (nu - 2)) +
                 (nu + n) * beta / (2 * (nu - 2) ** 2 + 2 * beta * (nu - 2))) / n
        mag = (n / (2 * (nu - 2)) + psi + np.log1p(beta / (nu - 2)) + (nu + n) / (2 * (nu - 2))) / n
        t = 1e-8 * mag + 100 * cond * 2.2e-16 * mag
        if abs(g[j] - true) <= t:
            mon.event('dof_exact')
        elif abs(g[j] - (true - psi / (2 * n))) <= t:
            mon.finding('tp-dof-gradient', got=g[j], want=true)
            mon.event('dof_known_finding')
        else:
            mon.fail('gradient with respect to the degrees of freedom', got=g[j], want=true, known=true - psi / (2 * n), **ctx)
        num = float(fd(lib, v, j, rel=1e-3 * min(1.0, (nu - 2) / nu)))
        mon.check(abs(num - true) <= 1e-5 * mag + 1e-7 + 1e-11 * cond, 'value differentiates to the textbook derivative of the degrees of freedom', got=num, want=true, **ctx)
    mon.event('components', len(v))
    if big:
        mon.key(k, name, d, n, ard, fix, getattr(prior, 'kind', None))
    mon.note(kernel=name, gradient=g, n=n)
