"""Reference posteriors with first-order rounding bounds, from reported matrices."""
import numpy as np
import ref

EPS = np.finfo(float).eps


def kernel_rel(name, X, Q, hyps):
    """Relative rounding error of kernel entries (distances of scaled coordinates)."""
    ls = np.abs(np.asarray(hyps['lengthscales'], float))
    A = np.asarray(X, float).reshape(-1, np.shape(X)[-1]) / ls
    B = np.asarray(Q, float).reshape(-1, np.shape(Q)[-1]) / ls
    m = max(1.0, float(np.max(np.abs(A))), float(np.max(np.abs(B))))
    return EPS * m * np.sqrt(A.shape[1])


def from_inverse(name, X, Y, Q, inv, hyps, prior=None, tp=False, jit=ref.JIT, C=200.0):
    """Posterior mean and variance from a given inverse covariance, with tolerances."""
    n = len(X)
    dl = kernel_rel(name, X, Q, hyps)
    Ks = ref.kernel(name, X, Q, hyps)
    kss = np.full(len(Q), float(hyps['signal']) ** 2) if not name.startswith('set_') else \
        np.array([ref.kernel(name, Q[i:i + 1], Q[i:i + 1], hyps)[0, 0] for i in range(len(Q))])
    kss = kss + jit
    m = np.zeros((n, 1)) if prior is None else prior(X)
    ms = np.zeros((len(Q), 1)) if prior is None else prior(Q)
    r = Y - m
    # relative kernel errors act on exp(-a): derivative bounded by k * a, keep the absolute form dl * s2
    s2 = float(hyps['signal']) ** 2
    aK = np.abs(Ks) + s2 * 1e-3
    ainv = np.abs(inv)
    mu = Ks.T @ (inv @ r) + ms
    tmu = C * dl * (aK.T @ (ainv @ np.abs(r))) + C * EPS * np.abs(ms)
    var = kss - np.sum(Ks * (inv @ Ks), axis=0)
    tvar = C * dl * (kss + np.sum(aK * (ainv @ aK), axis=0))
    if tp:
        nu = float(hyps['dof'])
        beta = float(np.squeeze(r.T @ inv @ r))
        tb = C * EPS * float(np.squeeze(np.abs(r).T @ ainv @ np.abs(r)))
        f = (nu + beta - 2.0) / (nu + n - 2.0)
        tf = tb / (nu + n - 2.0)
        tvar = abs(f) * tvar + tf * np.abs(var) + tf * tvar
        var = f * var
    return mu[:, 0], var, tmu[:, 0], tvar


def std_interval(var, tvar):
    return np.sqrt(np.maximum(var - tvar, 0.0)), np.sqrt(np.maximum(var, 0.0)), np.sqrt(np.maximum(var + tvar, 0.0))


def acq_with_tol(name, mu, var, tmu, tvar, Y, noise=None):
    lo, s, hi = std_interval(var, tvar)
    a0 = ref.acq(name, mu, s, Y, noise=noise)
    t = np.zeros_like(a0)
    for mm in (mu - tmu, mu, mu + tmu):
        for ss in (lo, s, hi):
            t = np.maximum(t, np.abs(ref.acq(name, mm, ss, Y, noise=noise) - a0))
    return a0, 1.5 * t + 1e-11 * np.abs(a0) + 1e-13 * (1 + np.max(np.abs(Y)))


def check_cov(mon, name, X, hyps, cov, inv, what=''):
    """The reported matrix belongs to the hyperparameters and the inverse to the matrix."""
    K = ref.train_cov(name, X, hyps)
    n = len(X)
    dl = kernel_rel(name, X, X, hyps)
    s2 = float(hyps['signal']) ** 2
    cov = np.asarray(cov)
    inv = np.asarray(inv)
    if not mon.check(cov.shape == (n, n) and inv.shape == (n, n), what + 'matrix shapes', cov=cov.shape, inv=inv.shape, n=n):
        return
    tol = 100 * dl * s2 + 1e-13 * (1e-5 + float(hyps['noise']) ** 2)
    D = cov - K
    off = D - np.diag(np.diag(D))
    shift = float(np.median(np.diag(D))) if n else 0.0
    cond = np.linalg.cond(K)
    if not (cond > 1e14 and shift > 0):       # a numerically singular matrix may carry extra jitter
        shift = 0.0
    mon.check(bool(np.all(np.abs(off) <= tol)) and bool(np.all(np.abs(np.diag(D) - shift) <= tol)),
              what + 'the covariance matrix is that of the reported hyperparameters', err=float(np.max(np.abs(D))),
              tol=tol, hyps=hyps, n=n, name=name)
    c = np.linalg.cond(cov)
    if c < 1e12:
        R = cov @ inv - np.eye(n)
        mon.check(float(np.max(np.abs(R))) <= 1e-13 * n * max(1.0, c) * 20, what + 'the inverse is the inverse',
                  residual=float(np.max(np.abs(R))), cond=c, n=n)
    else:
        mon.event('inverse_undecidable')
