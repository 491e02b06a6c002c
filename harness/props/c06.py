import itertools
import numpy as np
import gen

RULE = ('A case draws samples by every method for one box, checks counts, the grid, equivariance under moving and scaling '
        'the box with the same seed, stratification (Sobol, Halton) and statistics of large samples. Non-trivial when at '
        'least one distributional or structural assertion was evaluated; distinct by kind, dimension, box and count.')
ASSUMPTIONS = ['statistical thresholds correspond to false-alarm probabilities below 1e-9 per assertion']


def plan(tier):
    k = 3 if tier == 'quick' else 16
    return [('counts', 200 * k), ('grid', 200 * k), ('equivariance', 200 * k), ('qmc', 120 * k), ('stat', 60 * k),
            ('law', 24 * k)]


def model(rng, R, debug=False):
    from bayeso import bo
    return gen.pick(rng, [bo.BOwGP, bo.BOwTP, bo.BOwTrees])(R, debug=debug)


def unit(P, R):
    return (P - R[:, 0]) / (R[:, 1] - R[:, 0])


def run(case, mon):
    rng = np.random.RandomState(case['seed'])
    k = case['kind']
    d = gen.pick(rng, [1, 2, 3, 4, 7, 11, 16, 25], [.2, .2, .16, .14, .1, .08, .06, .06])
    R, fl = gen.box(rng, d)
    sd = gen.pick(rng, [None, 0, 42, int(rng.randint(10 ** 6))])
    if k == 'counts':
        m = model(rng, R, gen.chance(rng, 0.1))
        for meth in gen.SAMP:
            for n in (1, 2, 3, gen.logint(rng, 1, 300), gen.logint(rng, 300, 2500) if gen.chance(rng, 0.2) else 7, gen.pick(rng, [63, 64, 65, 100, 101, 127, 128, 129, 200, 256])):
                for q, P in (('samples', m.get_samples(meth, num_samples=n, seed=sd)), ('initials', m.get_initials(meth, n, seed=sd))):
                    mon.check(isinstance(P, np.ndarray) and P.shape == (n, d), '%s: requested number of points' % q,
                              meth=meth, n=n, d=d, got=np.shape(P))
                    if n >= 2 and meth != 'gaussian':
                        mon.check(len(np.unique(P, axis=0)) == n, 'points are distinct', meth=meth, n=n, d=d)
        mon.key(k, d, fl)
        return
    if k == 'grid':
        from bayeso.utils import utils_common
        n = int(rng.randint(1, max(2, int(round(3000 ** (1.0 / d))) + 1)))
        n = min(n, 60) if d > 1 else gen.logint(rng, 1, 3000)
        if d > 10:
            d = int(rng.randint(5, 11))
            n = gen.pick(rng, [1, 2])
            R, fl = gen.box(rng, d)
        if gen.chance(rng, 0.15):
            R = gen.degenerate(rng, R)
        direct = gen.chance(rng, 0.5)
        G = utils_common.get_grids(R, n) if direct else model(rng, R).get_samples('grid', num_samples=n, seed=sd)
        if mon.check(G.shape == (n ** d, d), 'the grid has all combinations', got=G.shape, n=n, d=d):
            ax = [np.linspace(R[j, 0], R[j, 1], n) for j in range(d)]
            W = np.array(list(itertools.product(*ax)))
            a = G[np.lexsort(G.T[::-1])]
            b = W[np.lexsort(W.T[::-1])]
            w = np.max(np.abs(R))
            mon.close(a, b, 'the grid is the Cartesian product of equally spaced values', rtol=0, atol=1e-12 * (1 + w), n=n, d=d)
            mon.check(bool(np.all(G.min(axis=0) == R[:, 0])) and (n == 1 or bool(np.all(G.max(axis=0) == R[:, 1]))),
                      'the grid includes both ends', n=n, d=d, R=R)
        mon.key(k, d, n, direct, fl)
        mon.note(n=n, d=d, points=len(G))
        return
    if k == 'equivariance':
        seed = gen.pick(rng, [0, 42, int(rng.randint(10 ** 6))])
        R2, fl2 = gen.box(rng, d)
        R0 = np.stack([np.zeros(d), np.ones(d)], 1)
        for meth in gen.SAMP:
            n = gen.logint(rng, 1, 150)
            U = model(rng, R0).get_samples(meth, num_samples=n, seed=seed)
            for Rx, f in ((R, fl), (R2, fl2)):
                P = model(rng, Rx).get_samples(meth, num_samples=n, seed=seed)
                w = Rx[:, 1] - Rx[:, 0]
                tol = 1e-12 * (np.max(np.abs(Rx)) + 1) / np.min(w) + 1e-12
                mon.close(unit(P, Rx), U, 'samples follow the box', rtol=0, atol=tol, meth=meth, n=n, box=f, d=d)
        # far from the origin compared with its width
        lo = rng.choice([-1.0, 1.0], d) * 10 ** rng.uniform(3, 7, d)
        Rx = np.stack([lo, lo + 10 ** rng.uniform(-3, 0, d)], 1)
        w = Rx[:, 1] - Rx[:, 0]
        for meth in gen.SAMP:
            n = gen.logint(rng, 1, 60)
            U = model(rng, R0).get_samples(meth, num_samples=n, seed=seed)
            P = model(rng, Rx).get_samples(meth, num_samples=n, seed=seed)
            tol = np.max(1e-15 * np.abs(Rx), axis=1) / w * 4 + 1e-12
            mon.check(bool(np.all(np.abs(unit(P, Rx) - U) <= tol)), 'samples follow a narrow box far away', meth=meth, n=n, box=Rx, d=d,
                      err=np.max(np.abs(unit(P, Rx) - U)))
        mon.event('narrow_boxes')
        # one dimension only
        j = rng.randint(d)
        R3 = R0.copy()
        R3[j] = R[j]
        for meth in gen.SAMP:
            U = model(rng, R0).get_samples(meth, num_samples=9, seed=seed)
            P = model(rng, R3).get_samples(meth, num_samples=9, seed=seed)
            o = [q for q in range(d) if q != j]
            mon.close(P[:, o], U[:, o], 'changing one dimension of the box leaves the others alone', rtol=0, atol=1e-12, meth=meth, j=j, d=d)
        mon.key(k, d, fl, fl2)
        return
    if k == 'qmc':
        m = model(rng, R)
        R, fl = gen.box(rng, d, gen.pick(rng, ['unit', 'sym', 'negative', 'ints']))
        m = model(rng, R)
        e = int(rng.randint(0, 12))
        n = 2 ** e
        S = unit(m.get_samples('sobol', num_samples=n, seed=sd), R)
        for j in range(d):
            cells = np.floor(np.clip(S[:, j], 0, 1 - 1e-15) * n).astype(int)
            near = np.abs(S[:, j] * n - np.round(S[:, j] * n)) < 1e-6 * n
            mon.check(len(set(cells.tolist())) == n or bool(near.any()), 'Sobol points stratify every dimension', n=n, d=d, j=j,
                      distinct=len(set(cells.tolist())))
        # any number of points begins with complete nets
        nn = gen.logint(rng, 2, 3000)
        S2 = unit(m.get_samples('sobol', num_samples=nn, seed=sd), R)
        for ee in range(1, nn.bit_length()):
            q = 2 ** ee
            for blk in range(min(nn // q, 3)):
                c = np.floor(np.clip(S2[blk * q:(blk + 1) * q], 0, 1 - 1e-15) * q).astype(int)
                mon.check(all(len(set(c[:, j].tolist())) == q for j in range(d)), 'blocks of Sobol points stratify every dimension',
                          n=nn, size=q, block=blk, d=d)
        if d >= 2 and e >= 2:
            # the first two dimensions form a (0, m, 2)-net under scrambling
            for a in range(e + 1):
                ca = np.floor(np.clip(S[:, 0], 0, 1 - 1e-15) * 2 ** a).astype(int)
                cb = np.floor(np.clip(S[:, 1], 0, 1 - 1e-15) * 2 ** (e - a)).astype(int)
                mon.check(len(set(zip(ca.tolist(), cb.tolist()))) == n, 'Sobol points fill every dyadic rectangle', n=n, a=a,
                          distinct=len(set(zip(ca.tolist(), cb.tolist()))))
        primes = [p for p in range(2, 110) if all(p % q for q in range(2, p))]
        n = gen.logint(rng, 1, 1500)
        H = unit(m.get_samples('halton', num_samples=n, seed=sd), R)
        for j in range(d):
            b = primes[j]
            p = b
            while p <= max(n, b):
                cnt = np.bincount(np.floor(np.clip(H[:, j], 0, 1 - 1e-15) * p).astype(int), minlength=p)
                # any n consecutive points of a scrambled Halton sequence: floor or ceil of n / p per cell
                mon.check(cnt.max() - cnt.min() <= 1, 'Halton points are balanced in every dimension', n=n, base=b, cells=p,
                          counts=cnt[:20], d=d, j=j)
                p *= b
        mon.key(k, d, e, n, fl)
        mon.note(sobol=2 ** e, halton=n, d=d)
        return
    if k == 'stat':
        # many points: moments, uniformity, independence between dimensions and between rows
        d = min(d, 11)
        R, fl = gen.box(rng, d, gen.pick(rng, ['unit', 'sym', 'negative', 'ints', 'mixed', 'tiny', 'huge', 'offset']))
        m = model(rng, R)
        n = 4000
        z = 6.5
        for meth in ('uniform', 'gaussian'):
            U = unit(m.get_samples(meth, num_samples=n, seed=sd), R)
            mu, sdv = U.mean(axis=0), U.std(axis=0)
            s0 = np.sqrt(1 / 12.0) if meth == 'uniform' else 0.2398
            mon.check(bool(np.all(np.abs(mu - 0.5) < z * s0 / np.sqrt(n))), 'samples are centred', meth=meth, mean=mu, fl=fl)
            mon.check(bool(np.all(np.abs(sdv - s0) < z * s0 / np.sqrt(n) + 0.002)), 'samples have the promised deviation', meth=meth, std=sdv)
            C = np.corrcoef(U.T) if d > 1 else np.ones((1, 1))
            mon.check(bool(np.all(np.abs(C - np.eye(d)) < z / np.sqrt(n)) if d > 1 else True), 'dimensions are independent', meth=meth, corr=np.abs(C - np.eye(d)).max())
            lag = [np.corrcoef(U[:-1, a], U[1:, b])[0, 1] for a in range(d) for b in range(d)]
            mon.check(bool(np.all(np.abs(lag) < z / np.sqrt(n))), 'rows are independent', meth=meth, lag=np.max(np.abs(lag)))
            x = np.sort(U, axis=0)
            if meth == 'uniform':
                g = (np.arange(n) + 0.5)[:, None] / n
                D = np.max(np.abs(x - g))
                mon.check(D < 3.6 / np.sqrt(n), 'uniform samples are uniform', D=D)
            else:
                import scipy.stats
                inn = (U > 0) & (U < 1)
                frac = 1 - inn.mean(axis=0)
                mon.check(bool(np.all(np.abs(frac - 0.0455) < z * np.sqrt(0.0455 / n))), 'Gaussian samples are clipped at the box', frac=frac)
                for j in range(d):
                    v = np.sort(U[inn[:, j], j])
                    F = (scipy.stats.norm.cdf((v - 0.5) * 4) - scipy.stats.norm.cdf(-2)) / (1 - 2 * scipy.stats.norm.cdf(-2))
                    g = (np.arange(len(v)) + 0.5) / len(v)
                    mon.check(np.max(np.abs(F - g)) < 3.6 / np.sqrt(len(v)), 'Gaussian samples are Gaussian inside the box', D=np.max(np.abs(F - g)))
        mon.key(k, d, fl, sd)
        mon.note(points=n, d=d, mean=mu, std=sdv)
        return
    # law: the first points of many seeded draws, so that small counts are covered
    d = gen.pick(rng, [1, 2, 3, 8])
    R, fl = gen.box(rng, d, gen.pick(rng, ['unit', 'sym', 'negative', 'ints', 'tiny']))
    m = model(rng, R)
    n = gen.pick(rng, [1, 2, 3, 5])
    for meth in gen.SAMP:
        base = int(rng.randint(10 ** 6))
        reps = 400
        U = np.array([unit(m.get_samples(meth, num_samples=n, seed=gen.pick(rng, [None, base + r])), R) for r in range(reps)])
        s0 = np.sqrt(1 / 12.0) if meth != 'gaussian' else 0.2398
        z = 6.5
        mon.check(bool(np.all(np.abs(U.mean(axis=0) - 0.5) < z * s0 / np.sqrt(reps))), 'every sample of a small draw is centred over seeds',
                  meth=meth, n=n, mean=U.mean(axis=0))
        mon.check(bool(np.all(np.abs(U.std(axis=0) - s0) < z * s0 / np.sqrt(reps) + 0.003)), 'every sample of a small draw spreads over the box',
                  meth=meth, n=n, std=U.std(axis=0))
    mon.key(k, d, n, fl)
