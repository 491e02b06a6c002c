"""Workload generators: boxes, data, hyperparameters, objectives, options."""
import numpy as np

COV = ['eq', 'se', 'matern32', 'matern52']
ACQ = ['pi', 'ei', 'ucb', 'aei', 'pure_exploit', 'pure_explore']
SAMP = ['uniform', 'gaussian', 'sobol', 'halton']
OPT_GP = ['BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded']
OPT_TP = ['L-BFGS-B', 'SLSQP']
MLM = ['regular', 'combined', 'converged']


def pick(rng, seq, p=None):
    return seq[int(rng.choice(len(seq), p=p))]


def chance(rng, p):
    return bool(rng.rand() < p)


def logint(rng, lo, hi):
    """Log-uniform integer in [lo, hi]."""
    return int(min(hi, np.floor(np.exp(rng.uniform(np.log(lo), np.log(hi + 1))))))


def box(rng, d, flavour=None):
    f = flavour or pick(rng, ['unit', 'sym', 'mixed', 'negative', 'offset', 'tiny', 'huge', 'ints'])
    if f == 'unit':
        lo, w = np.zeros(d), np.ones(d)
    elif f == 'sym':
        w = rng.uniform(1, 20, d)
        lo = -w / 2
    elif f == 'mixed':
        w = 10 ** rng.uniform(-3, 3, d)
        lo = rng.uniform(-2, 2, d) * w
    elif f == 'negative':
        w = rng.uniform(0.5, 5, d)
        lo = -w - rng.uniform(0.1, 30, d)
    elif f == 'offset':
        w = rng.uniform(0.5, 5, d)
        lo = rng.uniform(50, 1000, d)
    elif f == 'tiny':
        w = rng.uniform(0.5, 5, d) * 1e-3
        lo = rng.uniform(-1, 1, d)
    elif f == 'huge':
        w = rng.uniform(0.5, 5, d) * 1e4
        lo = rng.uniform(-1, 1, d) * 1e4
    elif f == 'ints':
        lo = rng.randint(-5, 5, d).astype(float)
        w = rng.randint(1, 9, d).astype(float)
    else:
        raise ValueError(f)
    return np.stack([lo, lo + w], axis=1), f


def degenerate(rng, R):
    R = R.copy()
    k = rng.randint(R.shape[0])
    R[k, 1] = R[k, 0]
    return R


def inside(rng, R, n):
    return R[:, 0] + rng.rand(n, R.shape[0]) * (R[:, 1] - R[:, 0])


def objective(rng, R, kind=None, scale=None, off=None):
    """A deterministic function of the box-normalised input."""
    lo, hi = R[:, 0], R[:, 1]
    w = np.where(hi > lo, hi - lo, 1.0)
    d = len(lo)
    kind = kind or pick(rng, ['quad', 'sin', 'const', 'step', 'bump', 'linear', 'plateau'])
    if scale is None:
        scale = 10 ** rng.uniform(-3, 3) if chance(rng, 0.5) else 1.0
    if off is None:
        off = rng.uniform(-3, 3) * scale
    c = rng.uniform(0.1, 0.9, d)
    a = rng.uniform(0.5, 2.0, d)
    fr = rng.uniform(2, 9)

    def f(x):
        u = (np.asarray(x, float).reshape(-1) - lo) / w
        if kind == 'quad':
            v = np.sum(a * (u - c) ** 2)
        elif kind == 'sin':
            v = np.sin(fr * np.sum(u * a)) + 0.3 * np.sum((u - c) ** 2)
        elif kind == 'const':
            v = 0.5
        elif kind == 'step':
            v = float(np.sum(u > c))
        elif kind == 'bump':
            v = -np.exp(-20 * np.sum((u - c) ** 2))
        elif kind == 'linear':
            v = float(np.sum(a * u))
        else:
            v = max(0.0, float(np.sum((u - c) ** 2)) - 0.1)
        return float(off + scale * v)
    f.kind = kind
    f.scale = scale
    f.center = lo + c * (hi - lo)
    return f


RET = ['float', 'np', 'arr1', 'arr11', 'arr0', 'int', 'list']


def wrap_return(v, how):
    if how == 'np':
        return np.float64(v)
    if how == 'arr1':
        return np.array([v])
    if how == 'arr11':
        return np.array([[v]])
    if how == 'arr0':
        return np.array(v)
    return v


def hyps(rng, d, use_gp=True, ard=None, noise=None, ls=(0.2, 3.0), spread=1.0):
    if ard is None:
        ard = chance(rng, 0.6)
    lo, hi = np.log(ls[0]), np.log(ls[1])
    h = {'noise': float(noise if noise is not None else 10 ** rng.uniform(-2, 0)),
         'signal': float(10 ** rng.uniform(-1, 1)),
         'lengthscales': np.exp(rng.uniform(lo, hi, d)) if ard else float(np.exp(rng.uniform(lo, hi)))}
    if not use_gp:
        h['dof'] = float(2.0 + 10 ** rng.uniform(-1, 2))
    return h


def prior_fun(rng, kind=None):
    """Returns None or a prior mean function acting on (n, d) or (n, m, d)."""
    kind = kind or pick(rng, ['none', 'const', 'linear', 'quad'])
    if kind == 'none':
        return None
    a, b = rng.uniform(-3, 3), rng.uniform(-2, 2)

    def mu(X):
        X = np.asarray(X, float)
        F = X if X.ndim == 2 else X.mean(axis=1)
        if kind == 'const':
            v = np.full(len(F), a)
        elif kind == 'linear':
            v = a + b * np.tanh(F).sum(axis=1)
        else:
            v = a + b * np.cos(F).sum(axis=1)
        return v[:, None]
    mu.kind = kind
    return mu


def data(rng, n, d, style=None):
    """Inputs of order one and smooth-ish outputs."""
    style = style or pick(rng, ['uniform', 'normal', 'cluster', 'lattice', 'dups'])
    if style == 'uniform':
        X = rng.uniform(-2, 2, (n, d))
    elif style == 'normal':
        X = rng.randn(n, d)
    elif style == 'cluster':
        X = rng.randint(-1, 2, (n, d)) * 1.5 + 0.2 * rng.randn(n, d)
    elif style == 'lattice':
        X = rng.randint(-3, 4, (n, d)).astype(float)
    else:
        X = rng.uniform(-2, 2, (n, d))
        k = n // 2
        if k:
            X[:k] = X[rng.randint(0, n, k)]
    a = rng.randn(d)
    Y = np.sin(X @ a)[:, None] * 10 ** rng.uniform(-0.5, 1) + 0.1 * rng.randn(n, 1) + rng.uniform(-2, 2)
    return X, Y, style


def digest(*arrs):
    import hashlib
    h = hashlib.sha256()
    for a in arrs:
        a = np.ascontiguousarray(np.asarray(a))
        h.update(str(a.shape).encode())
        h.update(a.tobytes())
    return h.hexdigest()[:16]
