"""Independent reference mathematics (written from the textbook definitions)."""
import math
import numpy as np
import scipy.linalg
import scipy.special

JIT = 1e-5      # documented jitter of covariance diagonals (bayeso.constants.JITTER_COV)


def scaled_dist(X, Z, ls):
    X = np.asarray(X, float)
    Z = np.asarray(Z, float)
    D = (X[:, None, :] - Z[None, :, :]) / np.asarray(ls, float)
    return np.sqrt(np.sum(D * D, axis=2))


def base_kernel(name, r):
    if name in ('eq', 'se'):
        return np.exp(-0.5 * r ** 2)
    if name == 'matern32':
        a = math.sqrt(3.0) * r
        return (1.0 + a) * np.exp(-a)
    if name == 'matern52':
        a = math.sqrt(5.0) * r
        return (1.0 + a + a * a / 3.0) * np.exp(-a)
    raise ValueError(name)


def kernel(name, X, Z, hyps):
    """Noise- and jitter-free cross covariance, for vectors or sets."""
    s2 = float(hyps['signal']) ** 2
    ls = hyps['lengthscales']
    if name.startswith('set_'):
        b = name[4:]
        K = np.zeros((len(X), len(Z)))
        for i in range(len(X)):
            for j in range(len(Z)):
                K[i, j] = np.mean(base_kernel(b, scaled_dist(X[i], Z[j], ls)))
        return s2 * K
    return s2 * base_kernel(name, scaled_dist(X, Z, ls))


def train_cov(name, X, hyps, jit=JIT):
    n = len(X)
    return kernel(name, X, X, hyps) + (jit + float(hyps['noise']) ** 2) * np.eye(n)


def gp_posterior(name, X, Y, Xs, hyps, prior=None, jit=JIT):
    K = train_cov(name, X, hyps, jit)
    Ks = kernel(name, X, Xs, hyps)
    Kss = kernel(name, Xs, Xs, hyps) + jit * np.eye(len(Xs))
    m = np.zeros((len(X), 1)) if prior is None else prior(X)
    ms = np.zeros((len(Xs), 1)) if prior is None else prior(Xs)
    L = np.linalg.cholesky(K)
    A = scipy.linalg.solve_triangular(L, Ks, lower=True)
    r = scipy.linalg.solve_triangular(L, Y - m, lower=True)
    mu = ms + A.T @ r
    S = Kss - A.T @ A
    beta = float(np.sum(r * r))
    return mu, S, beta, np.linalg.cond(K)


def gp_nll(name, X, Y, hyps, prior=None, jit=JIT):
    n = len(X)
    K = train_cov(name, X, hyps, jit)
    m = np.zeros((n, 1)) if prior is None else prior(X)
    L = np.linalg.cholesky(K)
    r = scipy.linalg.solve_triangular(L, Y - m, lower=True)
    logdet = 2.0 * np.sum(np.log(np.diag(L)))
    val = 0.5 * np.sum(r * r) + 0.5 * logdet + 0.5 * n * math.log(2 * math.pi)
    return float(val) / n


def tp_nll(name, X, Y, hyps, prior=None, jit=JIT):
    """Student-t process parametrised by covariance (Shah et al., 2014)."""
    n = len(X)
    nu = float(hyps['dof'])
    K = train_cov(name, X, hyps, jit)
    m = np.zeros((n, 1)) if prior is None else prior(X)
    L = np.linalg.cholesky(K)
    r = scipy.linalg.solve_triangular(L, Y - m, lower=True)
    beta = float(np.sum(r * r))
    logdet = 2.0 * np.sum(np.log(np.diag(L)))
    ll = -0.5 * n * math.log((nu - 2) * math.pi) - 0.5 * logdet \
        + math.lgamma(0.5 * (nu + n)) - math.lgamma(0.5 * nu) \
        - 0.5 * (nu + n) * math.log1p(beta / (nu - 2))
    return -ll / n


def loo_nll(name, X, Y, hyps, prior=None, jit=JIT):
    """Brute force: refit without each point."""
    n = len(X)
    m = np.zeros((n, 1)) if prior is None else prior(X)
    K = train_cov(name, X, hyps, jit)
    R = Y - m
    tot = 0.0
    for i in range(n):
        o = [j for j in range(n) if j != i]
        if o:
            L = np.linalg.cholesky(K[np.ix_(o, o)])
            a = scipy.linalg.solve_triangular(L, K[np.ix_(o, [i])], lower=True)
            r = scipy.linalg.solve_triangular(L, R[o], lower=True)
            mu = float(np.sum(a * r))
            var = float(K[i, i] - np.sum(a * a))
        else:
            mu, var = 0.0, float(K[i, i])
        tot += 0.5 * math.log(2 * math.pi * var) + 0.5 * (float(R[i, 0]) - mu) ** 2 / var
    return tot / n


def ncdf(z):
    return 0.5 * scipy.special.erfc(-np.asarray(z, float) / math.sqrt(2.0))


def npdf(z):
    z = np.asarray(z, float)
    return np.exp(-0.5 * z * z) / math.sqrt(2 * math.pi)


def acq(name, mean, std, Y, noise=None, jit=1e-5, kappa=2.0, increase=True):
    best = float(np.min(Y))
    if name == 'pure_exploit':
        return -mean
    if name == 'pure_explore':
        return std
    if name == 'ucb':
        k = kappa * math.log(len(Y) + 1.0) if increase else kappa
        return -mean + k * std
    z = (best - mean) / (std + jit)
    if name == 'pi':
        return ncdf(z)
    e = (best - mean) * ncdf(z) + std * npdf(z)
    if name == 'ei':
        return e
    if name == 'aei':
        return e * (1.0 - noise / np.sqrt(std ** 2 + noise ** 2))
    raise ValueError(name)


def normalize(Y):
    lo, hi = np.min(Y), np.max(Y)
    if lo == hi:
        return Y
    return (Y - lo) / (hi - lo) * 10.0
