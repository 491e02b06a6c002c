import numpy as np
import gen
import ref

RULE = ('A case evaluates every acquisition function on one vector of means and deviations (zero deviations, extreme ratios, '
        'ties with the incumbent, single entries) against its definition and laws. Non-trivial when both points better and '
        'worse than the incumbent were present; distinct by size, scale and parameters.')


def plan(tier):
    k = 15 if tier == 'quick' else 60
    return [('values', 700 * k), ('laws', 500 * k), ('names', 200 * k)]


def setup(rng):
    n = gen.pick(rng, [1, 2, 5, 30, 150, 1100], [.2, .2, .25, .25, .07, .03])
    sc = 10 ** rng.uniform(-4, 4)
    mu = rng.randn(n) * sc
    sd = np.abs(rng.randn(n)) * sc * 10 ** rng.uniform(-2, 1)
    sd[rng.rand(n) < 0.15] = 0.0
    m = gen.pick(rng, [1, 2, 3, 10, 60, gen.logint(rng, 60, 6000)])
    Y = rng.randn(m, 1) * sc
    if gen.chance(rng, 0.3):
        mu[0] = Y.min()
    if gen.chance(rng, 0.3):
        Y = Y + rng.uniform(-5, 5) * sc
    elif gen.chance(rng, 0.15):        # everything far from zero
        o = rng.uniform(-1, 1) * sc * 10 ** rng.uniform(1, 3)
        mu, Y = mu + o, Y + o
    elif gen.chance(rng, 0.1):
        Y = np.round(Y / sc).astype(int)
    return n, sc, mu, sd, m, Y


def run(case, mon):
    from bayeso import acquisition as aq
    from bayeso.utils import utils_bo
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    n, sc, mu, sd, m, Y = setup(rng)
    noise = float(10 ** rng.uniform(-3, 0) * gen.pick(rng, [1.0, sc]))
    ctx = dict(n=n, m=m, scale=sc)
    at = 1e-12 * max(sc, 1e-3 * np.max(np.abs(mu)), 1e-3 * np.max(np.abs(Y))) + 1e-300
    if k == 'values':
        j = gen.pick(rng, [None, 1e-5, 1e-3, 1e-9])
        kw = {} if j is None else {'jitter': j}
        jj = 1e-5 if j is None else j
        mon.close(aq.pi(mu, sd, Y, **kw), ref.acq('pi', mu, sd, Y, jit=jj), 'probability of improvement', rtol=1e-8, atol=1e-12, jitter=j, **ctx)
        mon.close(aq.ei(mu, sd, Y, **kw), ref.acq('ei', mu, sd, Y, jit=jj), 'expected improvement', rtol=1e-8, atol=at, jitter=j, **ctx)
        mon.close(aq.aei(mu, sd, Y, noise, **kw), ref.acq('aei', mu, sd, Y, noise=noise, jit=jj), 'augmented expected improvement',
                  rtol=1e-8, atol=at, jitter=j, noise=noise, **ctx)
        kap = float(gen.pick(rng, [2.0, 0.0, 0.5, 7.5]))
        inc = gen.chance(rng, 0.5)
        mon.close(aq.ucb(mu, sd, Y), ref.acq('ucb', mu, sd, Y), 'confidence bound', rtol=1e-12, atol=at, **ctx)
        mon.close(aq.ucb(mu, sd, Y, kappa=kap, increase_kappa=inc), ref.acq('ucb', mu, sd, Y, kappa=kap, increase=inc),
                  'confidence bound with parameters', rtol=1e-12, atol=at, kappa=kap, inc=inc, **ctx)
        mon.close(aq.ucb(mu, sd, kappa=kap), -mu + kap * sd, 'confidence bound without data', rtol=1e-12, atol=at, kappa=kap, **ctx)
        mon.close(aq.pure_exploit(mu), -mu, 'pure exploitation', rtol=0, atol=0, **ctx)
        mon.close(aq.pure_explore(sd), sd, 'pure exploration', rtol=0, atol=0, **ctx)
        mon.event('values_compared', 8 * n)
        if (mu < Y.min()).any() and (mu > Y.min()).any():
            mon.key(k, n, m, round(np.log10(sc)), j, kap, inc)
        mon.note(n=n, m=m, scale=sc, best=float(Y.min()))
        return
    if k == 'names':
        for a in gen.ACQ:
            f = utils_bo.choose_fun_acquisition(a, noise)
            got = f(pred_mean=mu, pred_std=sd, Y_train=Y)
            mon.close(got, ref.acq(a, mu, sd, Y, noise=noise), 'acquisition by name', rtol=1e-8, atol=at + (1e-12 if a == 'pi' else 0), acq=a, **ctx)
            if a != 'aei':
                mon.close(utils_bo.choose_fun_acquisition(a)(pred_mean=mu, pred_std=sd, Y_train=Y), ref.acq(a, mu, sd, Y),
                          'acquisition by name without noise', rtol=1e-8, atol=at + (1e-12 if a == 'pi' else 0), acq=a, **ctx)
        mon.key(k, n, m, round(np.log10(sc)))
        return
    p = aq.pi(mu, sd, Y)
    e = aq.ei(mu, sd, Y)
    mon.check(bool(np.all((p >= 0) & (p <= 1))), 'probability in [0, 1]', **ctx)
    mon.check(bool(np.all(e >= -1e-5)), 'expected improvement is non-negative up to the jitter', e=e.min(), **ctx)
    fs = {'pi': lambda u, s, y: aq.pi(u, s, y), 'ei': lambda u, s, y: aq.ei(u, s, y), 'aei': lambda u, s, y: aq.aei(u, s, y, noise),
          'ucb': lambda u, s, y: aq.ucb(u, s, y), 'exploit': lambda u, s, y: aq.pure_exploit(u), 'explore': lambda u, s, y: aq.pure_explore(s)}
    perm = rng.permutation(n)
    i = rng.randint(n)
    yp = Y[rng.permutation(m)]
    for nm, f in fs.items():
        v = f(mu, sd, Y)
        t = 1e-12 * (1 + np.max(np.abs(v)))
        mon.check(np.shape(v) == (n,), 'one value per point', acq=nm, got=np.shape(v))
        mon.close(f(mu[perm], sd[perm], Y), v[perm], 'element by element', rtol=1e-12, atol=t * 0 + 1e-15 * sc, acq=nm, **ctx)
        mon.close(f(mu[i:i + 1], sd[i:i + 1], Y), v[i:i + 1], 'a point alone', rtol=1e-12, atol=1e-15 * sc, acq=nm, **ctx)
        mon.close(f(mu, sd, yp), v, 'order of the data', rtol=1e-12, atol=1e-15 * sc, acq=nm, **ctx)
        up = f(mu + np.abs(rng.randn(n)) * sc, sd, Y)
        mon.check(bool(np.all(up <= v + t + (1e-5 if nm in ('ei', 'aei') else 0))) or nm == 'explore', 'decreases with the mean', acq=nm, **ctx)
        if nm in ('ei', 'ucb', 'explore'):
            us = f(mu, sd + np.abs(rng.randn(n)) * sc, Y)
            mon.check(bool(np.all(us >= v - t - 1e-5)), 'increases with the deviation', acq=nm, **ctx)
        if nm in ('pi', 'ei', 'aei'):
            # only the best output matters
            Y2 = np.vstack([Y, Y.min() + np.abs(rng.randn(3, 1)) * sc])
            mon.close(f(mu, sd, Y2), v, 'only the best output matters', rtol=1e-12, atol=1e-15 * sc, acq=nm, **ctx)
    k1, k2 = aq.ucb(mu, sd, Y), aq.ucb(mu, sd, np.vstack([Y] * 3))
    mon.check(bool(np.all(k2 >= k1 - 1e-12 * (1 + np.abs(k1)))), 'exploration weight grows with the data', **ctx)
    mon.key(k, n, m, round(np.log10(sc)))
