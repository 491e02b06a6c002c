import numpy as np
import scipy.stats
import gen
import ref

RULE = ('A case draws functions from a Gaussian or Student-t posterior with given or predicted mean and covariance and tests '
        'shape, reproducibility and, on whitened draws, mean, covariance, radial law, directions, marginals and '
        'independence of rows. Non-trivial when a distributional test was evaluated; distinct by kind, size, degrees of '
        'freedom and batch size.')
ASSUMPTIONS = ['thresholds correspond to false-alarm probabilities below 1e-9 per assertion']


def plan(tier):
    k = 1 if tier == 'quick' else 14
    return [('shape', 300 * k), ('gauss', 80 * k), ('student', 120 * k), ('ones', 60 * k), ('posterior', 50 * k), ('tails', 12 * k), ('smooth', 24 * k)]


def spd(rng, q):
    A = rng.randn(q, q)
    S = A @ A.T / q + np.diag(rng.uniform(0.2, 1, q))
    s = 10 ** (rng.uniform(-2, 2) if gen.chance(rng, 0.75) else rng.uniform(-11, 7))
    return S * s


def laws(mon, D, mu, S, nu, **ctx):
    """D: rows drawn."""
    N, q = D.shape
    L = np.linalg.cholesky(S)
    Z = np.linalg.solve(L, (D - mu).T).T
    z = 6.5 / np.sqrt(N)
    rad = np.sum(Z ** 2, axis=1)
    U = Z / np.sqrt(rad)[:, None]
    mon.check(bool(np.all(np.abs(U.mean(axis=0)) < z)), 'draws are centred at the mean', m=U.mean(axis=0), nu=nu, **ctx)
    C = U.T @ U / N * q
    mon.check(bool(np.all(np.abs(C - np.eye(q)) < z * 2.0)), 'draws have the correlations of the covariance', dev=np.abs(C - np.eye(q)).max(), nu=nu, **ctx)
    F = scipy.stats.chi2.cdf(rad, q) if np.isinf(nu) else scipy.stats.f.cdf(rad / q, q, nu)
    F = np.sort(F)
    ks = np.max(np.abs(F - (np.arange(N) + 0.5) / N))
    mon.check(ks < 3.6 / np.sqrt(N), 'draws have the radial law of the distribution', ks=ks, nu=nu, q=q, **ctx)
    w = np.random.RandomState(1).randn(q)
    w /= np.linalg.norm(w)
    t = Z @ w
    G = np.sort(scipy.stats.norm.cdf(t) if np.isinf(nu) else scipy.stats.t.cdf(t, nu))
    ks = np.max(np.abs(G - (np.arange(N) + 0.5) / N))
    mon.check(ks < 3.6 / np.sqrt(N), 'projections have the marginal law', ks=ks, nu=nu, q=q, **ctx)
    lag = np.abs(np.sum(U[1:] * U[:-1], axis=1).mean())
    mon.check(lag < z, 'rows are independent (directions)', lag=lag, **ctx)
    r = scipy.stats.rankdata(rad)
    c = np.corrcoef(r[1:], r[:-1])[0, 1]
    mon.check(abs(c) < z * 1.1, 'rows are independent (radii)', corr=c, **ctx)
    h = N // 2
    x = np.corrcoef(r[:h], r[h:2 * h])[0, 1]
    mon.check(abs(x) < 6.5 / np.sqrt(h) * 1.1, 'rows are not repeated', corr=x, **ctx)
    mon.event('draws', N)


def logf(q, nu):
    """Mean and variance of the logarithm of an F distributed variable."""
    from scipy.special import digamma, polygamma
    return (float(digamma(q / 2) - np.log(q / 2) - digamma(nu / 2) + np.log(nu / 2)),
            float(polygamma(1, q / 2) + polygamma(1, nu / 2)))


def run(case, mon):
    from bayeso.gp import gp
    from bayeso.tp import tp
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    q = gen.pick(rng, [1, 2, 3, 5, 9, 30, 90], [.2, .2, .2, .15, .15, .06, .04])
    if k == 'ones':
        q = min(q, 9)
    mu = rng.randn(q) * 10 ** rng.uniform(-1, 2)
    S = spd(rng, q)
    nu = gen.pick(rng, [2.1, 2.5, 3.0, 5.0, 12.0, 80.0, 300.0, np.inf])
    if k == 'shape':
        n = gen.pick(rng, [1, 2, 3, 7, 30, 300, 2000], [.2, .2, .2, .15, .15, .06, .04])
        if gen.chance(rng, 0.25):          # a query repeated, so that the covariance is singular up to the jitter
            S[:, -1], S[-1, :] = S[:, 0].copy(), S[0, :].copy()
            S[-1, -1] = S[0, 0]
            S += 1e-5 * np.eye(q) * S[0, 0]
        if gen.chance(rng, 0.2):           # whole numbers, also as integers
            mu = np.round(10 * mu)
            S = np.round(S) + np.diag(2.0 + np.sum(np.abs(np.round(S)), axis=1))
            if np.max(np.abs(S)) < 1e15:
                mu, S = mu.astype(gen.pick(rng, [int, 'int32', float]) if np.max(np.abs(mu)) < 1e9 else float), S.astype(gen.pick(rng, [int, float]))
        g = int(rng.randint(10 ** 9))
        for nm, f in (('gp', lambda: gp.sample_functions(mu, S, num_samples=n)), ('tp', lambda: tp.sample_functions(nu, mu, S, num_samples=n))):
            np.random.seed(g)
            a = f()
            mon.check(isinstance(a, np.ndarray) and a.shape == (n, q), 'one row per sample and one column per query', which=nm, got=np.shape(a), n=n, q=q)
            b = f()
            np.random.seed(g)
            c = f()
            mon.check(np.array_equal(a, c), 'reproducible through the global seed', which=nm, n=n, q=q)
            mon.check(not np.array_equal(a, b), 'further draws are fresh', which=nm, n=n, q=q)
            if n > 1:
                mon.check(len(np.unique(a, axis=0)) == n, 'rows are different draws', which=nm, n=n, q=q)
            mon.check(bool(np.all(np.isfinite(a))), 'draws are finite', which=nm)
            if np.max(np.abs(S)) < 1e12:
                mon.check(np.mean(a == np.round(a)) < 0.5, 'draws are continuous', which=nm, types=[str(mu.dtype), str(S.dtype)])
        np.random.seed(g)
        a = gp.sample_functions(mu, S)
        mon.check(a.shape == (1, q), 'one draw by default', got=a.shape)
        mon.key(k, q, n, nu)
        return
    if k == 'posterior':
        d = gen.pick(rng, [1, 2])
        n = gen.pick(rng, [2, 4, 8])
        X, Y, _ = gen.data(rng, n, d, 'uniform')
        Q = rng.uniform(-3, 3, (min(q, 4), d))
        tpq = gen.chance(rng, 0.5)
        h = gen.hyps(rng, d, use_gp=not tpq, ls=(0.3, 1.5))
        if tpq:
            nu_, m, s, S = tp.predict_with_hyps(X, Y, Q, h)
            f = float((h['dof'] + ref.gp_posterior('matern52', X, Y, Q, h)[2] - 2) / (h['dof'] + n - 2))
            S0 = ref.gp_posterior('matern52', X, Y, Q, h)[1] * f
        else:
            nu_ = np.inf
            m, s, S = gp.predict_with_hyps(X, Y, Q, h)
            S0 = ref.gp_posterior('matern52', X, Y, Q, h)[1]
        if np.linalg.cond(S0) > 1e8:
            mon.event('skipped')
            return
        m0 = ref.gp_posterior('matern52', X, Y, Q, h)[0][:, 0]
        N = 3000
        D = tp.sample_functions(nu_, m[:, 0], S, num_samples=N) if tpq else gp.sample_functions(m[:, 0], S, num_samples=N)
        laws(mon, D, m0, S0, float(h['dof'] + n) if tpq else np.inf, n=n, tp=tpq)
        mon.key(k, tpq, n, len(Q))
        return
    if k == 'gauss':
        D = gp.sample_functions(mu, S, num_samples=4000)
        laws(mon, D, mu, S, np.inf)
    elif k == 'tails':            # many draws, so that a large number of degrees of freedom is told from none
        q, nu = min(q, 3), gen.pick(rng, [15.0, 20.0, 26.0, 35.0, 50.0])
        mu, S = mu[:q], S[:q, :q]
        D = tp.sample_functions(nu, mu, S, num_samples=60000)
        laws(mon, D, mu, S, nu)
        rad = np.sum(np.linalg.solve(np.linalg.cholesky(S), (D - mu).T) ** 2, axis=0)
        # the logarithm has light tails, so that its mean can be tested
        z = np.log(rad / q)
        m, v = logf(q, nu)
        t = (z.mean() - m) / np.sqrt(v / len(z))
        mon.check(abs(t) < 6.5, 'draws have the mean logarithmic radius of the distribution', t=t, nu=nu, q=q)
        b = (rad / q > scipy.stats.f.isf(2e-3, q, nu)).sum()
        lo, hi = scipy.stats.binom.ppf(1e-10, len(z), 2e-3), scipy.stats.binom.isf(1e-10, len(z), 2e-3)
        mon.check(lo <= b <= hi, 'draws have the tails of the distribution', beyond=int(b), low=lo, high=hi, nu=nu, q=q)
    elif k == 'smooth':           # a posterior of a smooth function at many points: directions of small variance are kept small
        q = gen.pick(rng, [12, 31, 40, 64, 110, 200])
        d = gen.pick(rng, [1, 2])
        x = rng.uniform(0, 1, (q, d)) * gen.pick(rng, [0.2, 1.0, 3.0])
        sc = 10 ** rng.uniform(-1.5, 2)
        rel = 10 ** rng.uniform(-6, -3.5)
        r2 = np.sum((x[:, None] - x[None]) ** 2, axis=2)
        S = sc * ((np.exp(-0.5 * r2) if gen.chance(rng, 0.6) else (1 + np.sqrt(5 * r2) + 5 * r2 / 3) * np.exp(-np.sqrt(5 * r2))) + rel * np.eye(q))
        mu = rng.randn(q) * np.sqrt(sc)
        tq = gen.chance(rng, 0.5)
        nu = float(nu) if tq else np.inf
        N = 1500
        D = tp.sample_functions(nu, mu, S, num_samples=N) if tq else gp.sample_functions(mu, S, num_samples=N)
        laws(mon, D, mu, S, nu, rel=rel, tp=tq)
    elif k == 'student':
        D = tp.sample_functions(nu, mu, S, num_samples=4000)
        laws(mon, D, mu, S, nu)
    else:                         # many small requests
        b = gen.pick(rng, [1, 2, 3])
        tq = gen.chance(rng, 0.5)
        D = np.vstack([tp.sample_functions(nu, mu, S, num_samples=b) if tq else gp.sample_functions(mu, S, num_samples=b) for _ in range(1800 // b)])
        laws(mon, D, mu, S, nu if tq else np.inf, batch=b, tp=tq)
        mon.key(k, q, b, tq, nu)
    mon.key(k, q, nu if k != 'gauss' else 'inf', round(float(np.log10(S[0, 0]))))
    mon.note(q=q, nu=nu, draws=len(D), mean=D.mean(axis=0)[:3], wanted=mu[:3])
